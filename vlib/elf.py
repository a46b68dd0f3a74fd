"""Symbols of an x86-64 relocatable ELF file."""
import struct

NAMES = {0: "local", 1: "global", 2: "weak"}


def symbols(data):
    """(defined, undefined): names with global or weak binding."""
    if data[:4] != b"\x7fELF":
        raise ValueError("not an ELF file")
    shoff, = struct.unpack_from("<Q", data, 0x28)
    shentsize, shnum, _ = struct.unpack_from("<HHH", data, 0x3A)
    secs = [struct.unpack_from("<IIQQQQIIQQ", data, shoff + i * shentsize) for i in range(shnum)]
    defined, undefined = [], []
    for s in secs:
        if s[1] != 2:
            continue
        off, size, link = s[4], s[5], s[6]
        stroff = secs[link][4]
        for at in range(off, off + size, 24):
            name, info, _, shndx, _, _ = struct.unpack_from("<IBBHQQ", data, at)
            if info >> 4 == 0 or not name:
                continue
            end = data.index(b"\0", stroff + name)
            (undefined if shndx == 0 else defined).append(data[stroff + name:end].decode("utf-8", "replace"))
    return sorted(defined), sorted(undefined)
