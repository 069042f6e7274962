"""An instruction whose fields are given instead of decoded, for the components that only look at the fields"""
from semantic_codec.architecture.instruction import Instruction


class Stub(Instruction):
    def __init__(self, encoding, address, read=(), written=(), cond=14, opcode=1, undefined=False, branch=False,
                 push_pop='', flags=False, used=None, target=None, text=None):
        super().__init__(encoding, address)
        self._r, self._w = list(read), list(written)
        self._u = list(used) if used is not None else list(dict.fromkeys(self._w + self._r))
        self._c, self._o, self._und, self._b, self._pp, self._f = cond, opcode, undefined, branch, push_pop, flags
        self._target, self._text = target, text

    def __str__(self):
        return self._text if self._text is not None else 'op%s enc%x' % (self._o, self.encoding)

    @property
    def is_undefined(self):
        return self._und

    @property
    def is_branch(self):
        return self._b

    @property
    def is_push_pop(self):
        return bool(self._pp)

    def is_a(self, v):
        return self._pp == v

    @property
    def conditional_field(self):
        return self._c

    @property
    def opcode_field(self):
        return self._o

    def registers_used(self):
        return list(self._u)

    def registers_read(self):
        return list(self._r)

    def registers_written(self):
        return list(self._w)

    def _read_from_memory(self):
        return False

    def _writes_to_memory(self):
        return False

    def modifies_flags(self):
        return self._f

    @property
    def jumping_address(self):
        return self._target if self._b else None
