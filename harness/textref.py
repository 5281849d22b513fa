"""Independent reference for PDF text strings: PDFDocEncoding (ISO 32000 annex D.3) and UTF-16BE, all spellings of string objects."""
from .refpdf import Str

_SPECIAL = {
    0x18: '˘ˇˆ˙˝˛˚˜',
    0x80: '•†‡…—–ƒ⁄‹›−‰„“”‘’‚™ﬁﬂŁŒŠŸŽıłœšž',
    0xa0: '€',
}
PDFDOC = {}
for b in list(range(0x20, 0x7f)) + [x for x in range(0xa1, 0x100) if x != 0xad] + [9, 10, 13]:
    PDFDOC[b] = chr(b)
for start, s in _SPECIAL.items():
    for i, ch in enumerate(s):
        PDFDOC[start + i] = ch
UNPDFDOC = {ch: b for b, ch in PDFDOC.items()}


def decode(b):
    """Text of the bytes of a string (undefined codes are refused)."""
    b = bytes(b)
    if b[:2] == b'\xfe\xff':
        return b[2:].decode('utf-16be')
    return ''.join(PDFDOC[x] for x in b)


def encode(text, utf16=None):
    if not utf16 and all(ch in UNPDFDOC for ch in text):
        b = bytes(UNPDFDOC[ch] for ch in text)
        if b[:2] not in (b'\xfe\xff', b'\xff\xfe') and b[:3] != b'\xef\xbb\xbf':
            return Str(b)
    return Str(b'\xfe\xff' + text.encode('utf-16be'))


POOLS = ['abc XYZ 019', '()\\', '(((', '\n\r\t', 'éàüßÿþ€', '•†—“”ﬁŁž˘˜', 'Ωжשع', '漢字한', '😀𝒳🂡', '\x00\x07\x1b\x7f', '‎‏\ufeff\ufffe\uffff', '%/<>[]{}#', '\u00ad\u0085\u2028', 'ĈČ\u0808\u0c0c\x08\x0c', '<b>&"\'']


def text(r, n=None):
    n = n if n is not None else r.choice([0, 1, 2, 3, 5, 8, 13, 21, 40, 200]) if r.random() < .8 else r.randint(0, 12)
    pools = r.sample(POOLS, r.randint(1, 4)) if r.random() < .8 else POOLS[:1]
    return ''.join(r.choice(r.choice(pools)) for _ in range(n))


def pdfdoc_text(r, n=None):
    n = n if n is not None else r.choice([0, 1, 2, 3, 5, 8, 13, 30, 100])
    return ''.join(PDFDOC[r.choice(list(PDFDOC))] for _ in range(n))
