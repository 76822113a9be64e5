PROPERTY = 'C17'
NEEDS = 'two calls for one file with different options, the second while the first is running'
BREAKS = ('a call for a file that is being verified joins the running call, although it asks for '
          'a counterexample or for other backend arguments')
EDITS = [('src/nagini_translation/mcp_server.py', '''
    selected = {method} if method else None
    result = await _run(lambda: _service.verify(
        path, selected=selected, counterexample=counterexample, base_dir=base_dir,
        ignore_global=ignore_global, viper_args=viper_args,
        include_viper=include_viper, job_token=job_token))
    return result.to_dict()


@mcp.tool()
async def verify_method(''', '''
    selected = {method} if method else None
    key = (path, method, base_dir, ignore_global, include_viper, job_token)
    if key not in _running:
        # Clients that retry must not make the backend do the same work twice.
        _running[key] = asyncio.ensure_future(_run(lambda: _service.verify(
            path, selected=selected, counterexample=counterexample, base_dir=base_dir,
            ignore_global=ignore_global, viper_args=viper_args,
            include_viper=include_viper, job_token=job_token)))
        _running[key].add_done_callback(lambda _: _running.pop(key))
    result = await asyncio.shield(_running[key])
    return result.to_dict()


@mcp.tool()
async def verify_method('''), ('src/nagini_translation/mcp_server.py', '''
_service = None
# Multiple''', '''
_service = None
_running = {}
# Multiple''')]
DEMO = '''
import asyncio
import threading

import nagini_translation.mcp_server as M
from nagini_translation.service import VerifyResult

calls, go = [], threading.Event()


class Svc:
    def verify(self, path, **kw):
        calls.append(kw['counterexample'])
        go.wait(10)
        return VerifyResult(True, [], 0.1)


async def run():
    M._service = Svc()
    a = asyncio.ensure_future(M.verify_file('/x/a.py'))
    await asyncio.sleep(0.3)
    b = asyncio.ensure_future(M.verify_file('/x/a.py', counterexample=True))
    await asyncio.sleep(0.3)
    go.set()
    await a
    await b
    assert sorted(calls) == [False, True], calls

asyncio.run(run())
'''
EXTRA = []
