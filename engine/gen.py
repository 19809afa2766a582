"""Generic buffer contents, identical in the native replay (harness/src/native.rs)."""
M = (1 << 64) - 1


def mix(x):
    x &= M
    x ^= x >> 33
    x = x * 0xff51afd7ed558ccd & M
    x ^= x >> 33
    x = x * 0xc4ceb9fe1a85ec53 & M
    x ^= x >> 33
    return x


def gen_bits(buf, idx, w):
    h = mix(mix(buf + 1) + (idx & M) * 0x9e3779b97f4a7c15)
    if w == 64:
        return (1022 + (h >> 63)) << 52 | (h & ((1 << 52) - 1)) | (h >> 62 & 1) << 63
    return (126 + (h >> 63)) << 23 | (h >> 8 & ((1 << 23) - 1)) | (h >> 62 & 1) << 31


def gen_var(k, w):
    return gen_bits(1000 + k, 7, w)
