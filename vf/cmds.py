"""Command numbers and conversions between designs and specification tuples."""
STITCH, JUMP, TRIM, STOP, END, COLOR_CHANGE, SEQUIN_MODE, SEQUIN_EJECT = 0, 1, 2, 3, 4, 5, 6, 7
NEEDLE_SET, SLOW, FAST, SET_CHANGE_SEQUENCE = 9, 11, 12, 16
SEW_TO, NEEDLE_AT = 0xB0, 0xB1
M_TRANSLATE, M_SCALE_O, M_ROTATE_O, M_RESET, M_SCALE, M_ROTATE = 0xC0, 0xC1, 0xC2, 0xC3, 0xC4, 0xC5
TIE_ON_SMALL, TIE_OFF_SMALL, TIE_ON_NONE, TIE_OFF_NONE = 0xD1, 0xD2, 0xD3, 0xD4
OPT_MAX_STITCH, OPT_MAX_JUMP, OPT_EXPLICIT, OPT_IMPLICIT = 0xD5, 0xD6, 0xD7, 0xD8
STITCH_BREAK, SEQUENCE_BREAK, COLOR_BREAK, TIE_ON, TIE_OFF, FRAME_EJECT = 0xE0, 0xE1, 0xE2, 0xE4, 0xE5, 0xE9
LONG_NONE, LONG_JUMP, LONG_SEW = 0xF0, 0xF1, 0xF2
SEQ_UTIL, SEQ_JUMP, SEQ_STITCH, SEQ_REMOVE = 0xF5, 0xF6, 0xF7, 0xF8
NO_COMMAND = -1
CLAMP = 400000000


def milli(v):
    """a coordinate in thousandths, always an int that TLC can hold"""
    try:
        r = int(round(float(v) * 1000))
    except (TypeError, ValueError, OverflowError):
        return CLAMP - 7
    return max(-CLAMP, min(CLAMP, r))


def pack(flag, thread=None, needle=None, order=None):
    def b(v):
        return 0 if v is None else (v & 0xFF) + 1
    return (flag & 0xFF) | (b(order) << 24) | (b(needle) << 16) | (b(thread) << 8)


def unpack(cmd):
    """<<flag, t, n, o>> bytes of a packed command (any int)"""
    try:
        cmd = int(cmd)
    except (TypeError, ValueError):
        return [999, 0, 0, 0]
    return [cmd & 0xFF, (cmd >> 8) & 0xFF, (cmd >> 16) & 0xFF, (cmd >> 24) & 0x1FF]


def spec_stitch(s):
    try:
        return [milli(s[0]), milli(s[1])] + unpack(s[2])
    except Exception:
        return [CLAMP, CLAMP, 998, 0, 0, 0]
