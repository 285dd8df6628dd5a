"""Templates are compiled once per process: the library makes a new environment for every document."""
import jinja2

_compile = jinja2.Environment.compile
_memo = {}


def _compile_once(self, source, name=None, filename=None, raw=False, defer_init=False):
    if raw or not isinstance(source, str):
        return _compile(self, source, name, filename, raw, defer_init)
    key = (source, name, filename, tuple(sorted(self.extensions)), self.trim_blocks, self.lstrip_blocks, self.autoescape is True)
    if key not in _memo:
        _memo[key] = _compile(self, source, name, filename, raw, defer_init)
    return _memo[key]


jinja2.Environment.compile = _compile_once
