"""Property-based checks of pycaption."""
import sys
import types


class _Tokenizer:
    def tokenize(self, text):
        return [s for s in text.replace('. ', '.\n').split('\n')]


try:
    import nltk.data  # noqa: F401
except ImportError:
    # nltk, which TranscriptWriter needs, is not installed: a stand-in that cuts a text into sentences
    _nltk, _data = types.ModuleType('nltk'), types.ModuleType('nltk.data')
    _nltk.data, _data.load = _data, lambda *a, **kw: _Tokenizer()
    sys.modules['nltk'], sys.modules['nltk.data'] = _nltk, _data
