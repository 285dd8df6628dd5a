"""The command lines which write a document for a module of python code."""
import os
import sys
import tempfile


def document(main, name, value, stdout):
    """What the command writes for a module which defines the name: to a file or to the standard output."""
    sys.modules[__name__].current = value
    with tempfile.TemporaryDirectory(prefix='command-') as tmp:
        path, out = os.path.join(tmp, 'code.py'), os.path.join(tmp, 'out.xml')
        with open(path, 'w', encoding='utf-8') as f:
            f.write(f'import sys\n{name} = sys.modules[{__name__!r}].current\n')
        if stdout:
            before, sys.stdout = sys.stdout, open(out, 'w', encoding='utf-8')
            try:
                code = main([path])
            finally:
                sys.stdout.close()
                sys.stdout = before
        else:
            code = main([path, out])
        if code not in (0, None):
            raise RuntimeError(f'exit code {code}')
        with open(out, 'rb') as f:
            return f.read()
