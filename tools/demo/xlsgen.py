"""Small writer of BIFF streams and OLE2 containers, for demonstrations."""
from struct import pack
import io
import os
import sys

sys.path.insert(0, os.getcwd())


def rec(op, data=b''):
    return pack('<HH', op, len(data)) + data


def uni(s, lenlen=2):
    """BIFF8 unicode string, 16-bit characters unless latin-1"""
    try:
        b, f = s.encode('latin-1'), 0
    except UnicodeEncodeError:
        b, f = s.encode('utf-16-le'), 1
    n = len(s)
    return pack('<B' if lenlen == 1 else '<H', n) + bytes([f]) + b


def bof(bv, kind):
    if bv == 80:
        return rec(0x0809, pack('<HHHHII', 0x0600, kind, 0x0DBB, 1996, 0, 6))
    if bv == 70:
        return rec(0x0809, pack('<HHHH', 0x0500, kind, 0x0DBB, 1996))
    if bv == 50:
        return rec(0x0809, pack('<HHHH', 0x0500, kind, 2412, 1993))
    if bv in (40, 45):
        return rec(0x0409, pack('<HHH', 0x0400, kind, 0))
    if bv == 30:
        return rec(0x0209, pack('<HHH', 0x0300, kind, 0))
    return rec(0x0009, pack('<HH', 0x0200, kind))


EOF = rec(0x0A)


def font8(name='Arial', weight=400, height=200):
    return rec(0x31, pack('<HHHHHBBBB', height, 0, 0x7FFF, weight, 0, 0, 0, 0, 0) + uni(name, 1))


def xf8(fmt=0, font=0, style=False, used=0, align=0x20):
    tb = 0xFFF5 if style else 0x0001
    return rec(0xE0, pack('<HHHBBBBIIH', font, fmt, tb, align, 0, 0, used, 0, 0, 0x20C0))


def format8(key, s):
    return rec(0x41E, pack('<H', key) + uni(s))


def sst8(strings):
    body = b''.join(uni(s) for s in strings)
    return rec(0xFC, pack('<II', len(strings), len(strings)) + body)


def number(r, c, v, xf=15):
    return rec(0x0203, pack('<HHHd', r, c, xf, v))


def labelsst(r, c, i, xf=15):
    return rec(0x00FD, pack('<HHHI', r, c, xf, i))


def workbook8(sheets, extra=(), names=None, xfs=None, formats=(), after=(), codepage=1200,
              datemode=0, visibility=None):
    """sheets: list of bytes (sheet records between BOF and EOF); extra: global records before
    BOUNDSHEET; after: global records after them"""
    names = names or ['S%d' % (i + 1) for i in range(len(sheets))]
    visibility = visibility or [0] * len(sheets)
    if xfs is None:
        xfs = [xf8(style=True) for _ in range(15)] + [xf8()]
    pre = bof(80, 5) + rec(0x42, pack('<H', codepage)) + rec(0x22, pack('<H', datemode))
    pre += b''.join(font8() for _ in range(5)) + b''.join(formats) + b''.join(xfs)
    pre += b''.join(extra)
    post = b''.join(after) + EOF
    bslen = sum(4 + 6 + len(uni(n, 1)) for n in names)
    pos = len(pre) + bslen + len(post)
    bs = b''
    body = b''
    for n, s, vis in zip(names, sheets, visibility):
        bs += rec(0x85, pack('<iBB', pos + len(body), vis, 0) + uni(n, 1))
        body += bof(80, 0x10) + s + EOF
    return pre + bs + post + body


def sheet_only(bv, records):
    """BIFF 2/3/4 worksheet stream"""
    return bof(bv, 0x10) + records + EOF


def ole2(streams, short=False):
    """streams: dict name -> bytes.  Streams are padded to 4096 bytes so no short-stream
    container is needed, unless short."""
    ss = 512
    data = b''
    sat = []
    dirs = []
    names = list(streams)
    ministream = b''
    ssat = []

    def chain(start, n):
        for k in range(n):
            sat.append(start + k + 1 if k < n - 1 else -2)
    entries = []
    for n in names:
        s = streams[n]
        if short and len(s) < 4096:
            first = len(ssat)
            cnt = max(1, (len(s) + 63) // 64)
            ministream += s + b'\0' * (cnt * 64 - len(s))
            for k in range(cnt):
                ssat.append(first + k + 1 if k < cnt - 1 else -2)
            entries.append((n, 2, first, len(s)))
            continue
        if len(s) < 4096:
            s = s + b'\0' * (4096 - len(s))
        cnt = (len(s) + ss - 1) // ss
        first = len(sat)
        chain(first, cnt)
        data += s + b'\0' * (cnt * ss - len(s))
        entries.append((n, 2, first, len(s)))
    root_first, root_len = -2, 0
    ssat_first, ssat_n = -2, 0
    if ministream:
        cnt = (len(ministream) + ss - 1) // ss
        root_first, root_len = len(sat), len(ministream)
        chain(root_first, cnt)
        data += ministream + b'\0' * (cnt * ss - len(ministream))
        raw = b''.join(pack('<i', x) for x in ssat)
        ssat_n = (len(raw) + ss - 1) // ss
        ssat_first = len(sat)
        chain(ssat_first, ssat_n)
        data += raw + b'\xff' * (ssat_n * ss - len(raw))
    dirents = [('Root Entry', 5, root_first, root_len, 1)] + [
        (n, t, f, ln, i + 2 if i + 1 < len(entries) else -1) for i, (n, t, f, ln) in enumerate(entries)]
    raw = b''
    for i, (n, t, f, ln, right) in enumerate(dirents):
        nb = n.encode('utf-16-le') + b'\0\0'
        child = 1 if i == 0 and entries else -1
        rt = -1 if i == 0 else right
        raw += nb + b'\0' * (64 - len(nb)) + pack('<HBBiii', len(nb), t, 1, -1, rt, child)
        raw += b'\0' * 36 + pack('<iii', f, ln, 0)
    cnt = (len(raw) + ss - 1) // ss
    while len(raw) < cnt * ss:
        raw += b'\0' * 64 + pack('<HBBiii', 0, 0, 0, -1, -1, -1) + b'\0' * 36 + pack('<iii', 0, 0, 0)
    dir_first = len(sat)
    chain(dir_first, cnt)
    data += raw
    nsat = 1
    while (len(sat) + nsat) > nsat * 128:
        nsat += 1
    sat_first = len(sat)
    sat += [-3] * nsat
    raw = b''.join(pack('<i', x) for x in sat)
    data += raw + b'\xff' * (nsat * ss - len(raw))
    hdr = b'\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1' + b'\0' * 16
    hdr += pack('<HHHHH', 0x3E, 3, 0xFFFE, 9, 6) + b'\0' * 10
    hdr += pack('<iiiiiiiii', nsat, dir_first, 0, 4096, ssat_first, ssat_n, -2, 0, sat_first)[:36]
    msat = [sat_first + k for k in range(nsat)] + [-1] * (109 - nsat)
    hdr = hdr[:76] + b''.join(pack('<i', x) for x in msat)
    assert len(hdr) == 512
    return hdr + data


def open_bytes(b, **kw):
    import xlrd
    kw.setdefault('logfile', io.StringIO())
    return xlrd.open_workbook(file_contents=b, **kw)
