"""
Interposes on the AEAD primitives siotls obtains from the library of
cryptography: must be imported before siotls. Remembers which nonce each key
was used with. lib.ref13 keeps the genuine ones, so that what the reference
peers protect is not seen.
"""
from cryptography.hazmat.primitives.ciphers import aead

from . import ref13   # noqa: F401  imports the genuine ones


class Use:
    """ Of one key in one direction: 0..count-1 were used, and those of odd. """
    def __init__(self, base):
        self.base, self.count, self.odd, self.total = base, 0, set(), 0

    def add(self, nonce):
        """ False when the nonce was used already """
        self.total += 1
        seq = int.from_bytes(nonce, 'big') ^ self.base
        if seq == self.count:
            self.count += 1
            while self.odd and self.count in self.odd:
                self.odd.discard(self.count)
                self.count += 1
            return True
        if seq < self.count or seq in self.odd:
            return False
        self.odd.add(seq)
        return True


class Spy:
    def __init__(self):
        self.reset()

    def reset(self):
        self.sealed, self.opened = {}, {}      # (algorithm, key) -> Use
        self.problems = []
        self.trace = None       # or a list of (sealed or opened, key, nonce)
        self.keep = None        # or a list of (key, nonce, what it sealed)
        self.lengths = set()

    def seal(self, alg, key, nonce):
        self.lengths.add((alg, len(nonce)))
        if self.trace is not None:
            self.trace.append(('sealed', key, int.from_bytes(nonce, 'big')))
        k = (alg, key)
        use = self.sealed.get(k)
        if use is None:
            use = self.sealed[k] = Use(int.from_bytes(nonce, 'big'))
        if not use.add(bytes(nonce)):
            self.problems.append(f'{alg} key {key.hex()} nonce {bytes(nonce).hex()} (record {use.total})')

    def open(self, alg, key, nonce):
        if self.trace is not None:
            self.trace.append(('opened', key, int.from_bytes(nonce, 'big')))
        k = (alg, key)
        use = self.opened.get(k)
        if use is None:
            use = self.opened[k] = Use(int.from_bytes(nonce, 'big'))
        use.add(bytes(nonce))


spy = Spy()


def wrap(name):
    genuine = getattr(aead, name)

    class Spied:
        _genuine = genuine
        generate_key = staticmethod(genuine.generate_key)

        def __init__(self, key, *args, **kwargs):
            self._aead, self._key = genuine(key, *args, **kwargs), bytes(key)

        def encrypt(self, nonce, data, associated_data):
            spy.seal(name, self._key, nonce)
            out = self._aead.encrypt(nonce, data, associated_data)
            if spy.keep is not None:
                spy.keep.append((self._key, bytes(nonce), out))
            return out

        def decrypt(self, nonce, data, associated_data):
            out = self._aead.decrypt(nonce, data, associated_data)
            spy.open(name, self._key, nonce)
            return out

        def __getattr__(self, attr):
            return getattr(self._aead, attr)

    Spied.__name__ = Spied.__qualname__ = name
    return Spied


for _name in ('AESGCM', 'AESCCM', 'ChaCha20Poly1305'):
    setattr(aead, _name, wrap(_name))
