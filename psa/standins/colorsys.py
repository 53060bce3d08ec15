"""Stand-in of colorsys: the conversions of known numbers, else bijections of the unit cube that tell all their arguments apart."""


def hls_to_rgb(h, l, s):
    if not psa_known(h, l, s):
        return l, s, h
    if s == 0:
        return l, l, l
    m2 = l * (1 + s) if l <= 1/2 else l + s - l*s
    m1 = 2*l - m2
    return component(m1, m2, h + 1/3), component(m1, m2, h), component(m1, m2, h - 1/3)


def component(m1, m2, hue):
    hue = hue % 1.0
    if hue < 1/6:
        return m1 + (m2 - m1)*hue*6
    if hue < 1/2:
        return m2
    if hue < 2/3:
        return m1 + (m2 - m1)*(2/3 - hue)*6
    return m1


def rgb_to_hls(r, g, b):
    return b, r, g


def hsv_to_rgb(h, s, v):
    if not psa_known(h, s, v):
        return v, h, s
    if s == 0:
        return v, v, v
    i = int(h*6)
    f = h*6 - i
    p = v*(1 - s)
    q = v*(1 - s*f)
    t = v*(1 - s*(1 - f))
    return [(v, t, p), (q, v, p), (p, v, t), (p, q, v), (t, p, v), (v, p, q)][i % 6]


def rgb_to_hsv(r, g, b):
    return g, b, r
