"""
Capabilities: which external functions the package may call, and where (C27).
"""

import ast
import builtins

from .front import dotted, loc

RUNS_CODE = {'eval', 'exec', 'compile', '__import__', 'execfile', 'breakpoint', 'input', 'runpy.run_path', 'runpy.run_module',
             'builtins.eval', 'builtins.exec', 'builtins.compile', 'builtins.__import__', 'types.FunctionType', 'types.CodeType',
             'typing.get_type_hints', 'logging.config', 'sys.settrace', 'sys.setprofile', 'atexit.register', 'signal.signal'}
MODULES = {'subprocess': 'runs a process', 'multiprocessing': 'runs a process', 'pty': 'runs a process', 'popen2': 'runs a process',
           'socket': 'uses network', 'ssl': 'uses network', 'urllib': 'uses network', 'http': 'uses network', 'ftplib': 'uses network',
           'smtplib': 'uses network', 'requests': 'uses network', 'xmlrpc': 'uses network', 'telnetlib': 'uses network',
           'asyncio': 'uses network', 'socketserver': 'uses network', 'webbrowser': 'runs a process', 'ctypes': 'runs foreign code',
           'pickle': 'runs what is read as code', 'cPickle': 'runs what is read as code', 'marshal': 'runs what is read as code',
           'shelve': 'runs what is read as code', 'dill': 'runs what is read as code', 'imp': 'runs what is read as code',
           'importlib': 'runs what is read as code', 'code': 'runs what is read as code', 'codeop': 'runs what is read as code',
           'tempfile': 'creates files', 'shutil': 'changes files', 'sqlite3': 'opens files', 'dbm': 'opens files',
           'mmap': 'opens files', 'fileinput': 'opens files', 'linecache': 'opens files', 'dotenv': 'uses environment'}
SAFE_OS = {'os.path', 'os.sep', 'os.linesep', 'os.fspath', 'os.fsencode', 'os.fsdecode', 'os.PathLike', 'os.listdir', 'os.scandir',
           'os.walk', 'os.stat', 'os.extsep', 'os.pardir', 'os.curdir'}
OS_PATH = {'os.path.expandvars': 'uses environment', 'os.path.expanduser': 'uses environment'}
OPENERS = {'open', 'io.open', 'codecs.open', 'os.open', 'os.fdopen', 'zipfile.ZipFile', 'gzip.open', 'bz2.open', 'lzma.open',
           'io.FileIO', 'tarfile.open', 'pathlib.Path', 'zipfile.Path', 'io.open_code', 'tokenize.open', 'builtins.open', 'gzip.GzipFile',
           'importlib.resources.open_text'}
MODE_AT = {'zipfile.ZipFile': 1, 'io.TextIOWrapper': None}
# methods of files, archives and paths
WRITES = {'write', 'writelines', 'write_text', 'write_bytes', 'writestr', 'unlink', 'mkdir', 'rmdir', 'touch', 'extractall', 'extract',
          'truncate', 'symlink_to', 'hardlink_to', 'chmod'}
OPENS = {'open', 'read_text', 'read_bytes', 'readinto'}


def external(prog, module, e, local):
    """name of the external thing"""
    d = dotted(e)
    if d is None or d.split('.')[0] in local:
        return None
    r = prog.resolve(module, e)
    if r is not None:
        return r[1] if r[0] == 'ext' else None
    head = d.split('.')[0]
    if prog.lookup(module, head) is None and hasattr(builtins, head):
        return d
    return None


def names_of(node):
    """variables of the function and of those inside it"""
    res = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            res.add(n.id)
        elif isinstance(n, ast.arg):
            res.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not node:
            res.add(n.name)
    return res


def forbidden(name):
    if name in RUNS_CODE:
        return 'runs code'
    top = name.split('.')[0]
    if top in MODULES and '.' in name:
        return MODULES[top]
    if name in OS_PATH:
        return OS_PATH[name]
    if top == 'os' and name != 'os' and not any(name == x or name.startswith(x + '.') for x in SAFE_OS) and name not in OPENERS:
        return 'uses environment, processes or files of the system'
    if name.startswith('sys.') and name.split('.')[1] in ('modules', 'path', 'argv', 'stdin', 'meta_path', 'path_hooks'):
        return 'uses environment'
    return None


def reading(name, call):
    """is the file opened for reading: True, False, None (not known)"""
    pos = MODE_AT.get(name, 1)
    mode = call.args[pos] if pos is not None and len(call.args) > pos and not any(
        isinstance(a, ast.Starred) for a in call.args[:pos + 1]) else next((k.value for k in call.keywords if k.arg == 'mode'), None)
    if mode is None:
        return None if any(k.arg is None for k in call.keywords) else True
    if isinstance(mode, ast.Constant) and isinstance(mode.value, str):
        return set(mode.value) <= set('rbtU')
    return None


def check(c, queries, units=None):
    """queries: functions reached from queries"""
    prog = c.prog
    if units is None:
        units = []
        for f in prog.functions.values():
            if not f.qual.startswith('spec.'):
                units.append((f.qual, f.module, f.node))
        for m in prog.modules.values():
            if not m.name.startswith('spec.'):
                units.append((m.short + ':<module>', m, m.tree))
    seen = set()
    for qual, module, node in units:
        local = names_of(node) if not isinstance(node, ast.Module) else set()
        inner = set()
        if isinstance(node, ast.Module):
            for s in ast.walk(node):
                if isinstance(s, ast.FunctionDef):
                    inner |= {id(x) for x in ast.walk(s) if x is not s and x not in s.decorator_list}
        called = {id(n.func): n for n in ast.walk(node) if isinstance(n, ast.Call)}
        for n in ast.walk(node):
            if id(n) in inner or id(n) in seen:
                continue
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                name = external(prog, module, n, local)
                if name is not None:
                    for x in ast.walk(n):
                        seen.add(id(x))
                    c.count('external names used')
                    why = forbidden(name)
                    if why:
                        c.add('no code, process, network or environment', f'{qual}: {name}', 'bad', f'{name} {why}', loc(module, n))
                        continue
                    if name in OPENERS:
                        opener(c, qual, module, n, name, called.get(id(n)), queries)
                    elif id(n) in called:
                        c.add('no code, process, network or environment', f'{qual}: {name} {loc(module, n)}', 'ok')
                elif isinstance(n, ast.Attribute) and id(n) in called and prog.resolve(module, n) is None:
                    if n.attr in WRITES:
                        c.add('files are only read', f'{qual}: {ast.unparse(n)}', 'bad', f'{ast.unparse(called[id(n)])} may write',
                              loc(module, n))
                    elif n.attr in OPENS:
                        opener(c, qual, module, n, '.' + n.attr, called[id(n)], queries)


def opener(c, qual, module, n, name, call, queries):
    c.count('places where files are opened')
    if qual in queries:
        c.add('queries open nothing', f'{qual}: {name}', 'bad', f'{name} is reached from a query', loc(module, n))
        return
    path = call.args[0] if call is not None and call.args else None
    if name in OPENERS and path is not None and not any(isinstance(x, (ast.Name, ast.Starred)) and getattr(x, 'id', '') != '__file__'
                                                        for x in ast.walk(path)):
        c.add('only the named files are opened', f'{qual}: {name}', 'bad', f'{ast.unparse(call)} is not a file of the dictionary',
              loc(module, n))
        return
    r = None if call is None else reading(name, call)
    c.add('files are only read', f'{qual}: {name}', {True: 'ok', False: 'bad', None: 'unknown'}[r],
          '' if r else f'{ast.unparse(call) if call is not None else name}: opened not only for reading', loc(module, n))
