"""Random data sets as driver text."""
import struct

IN_NAMES = {'COS_TH': 1, 'COS_TK': 1, 'COS_TLV': 1, 'COS_TLR': 1, 'RUSIN_TH_TD': 2, 'COS_TH_TD': 2,
            'ISOTROPIC_TV_PROJ_DPHI': 2, 'STARK_2D': 2, 'NEUMANN_2D': 2, 'RUSIN_TH_TD_PD': 3,
            'ISOTROPIC_TV_TL_DPHI': 3, 'RUSIN_VH': 3, 'ISOTROPIC_TL_TV_PROJ_DPHI': 3,
            'SCHLICK_TL_TK_PROJ_DPHI': 3, 'RETRO_TL_TVL_PROJ_DPHI': 3, 'STARK_3D': 3, 'NEUMANN_3D': 3,
            'RUSIN_TH_PH_TD_PD': 4, 'SPHERICAL_TL_PL_TV_PV': 4, 'STEREOGRAPHIC': 4, 'CARTESIAN': 6}
OUT_NAMES = {'INV_STERADIAN': 1, 'ENERGY': 1, 'RGB_COLOR': 3, 'XYZ_COLOR': 3, 'INV_STERADIAN_COSINE_FACTOR': 1}


def value(rng):
    o = rng.random()
    if o < .15:
        v = float(rng.randint(-50, 50))
    elif o < .45:
        v = rng.uniform(-2, 2)
    elif o < .6:
        v = rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 299)
    elif o < .65:
        v = rng.choice([0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1e-310, 1e300, -1e300, 3.5e38, -3.5e38,
                        0.1, 1 / 3., 1e-5, 123456789012345.0, 1234567890123456.0, 9007199254740993.0])
    elif o < .8:
        v = rng.randint(-10 ** 15, 10 ** 15) / 10.0 ** rng.randint(0, 15)
    else:   # random mantissa, moderate exponent; often with a special lowest byte
        b = rng.choice([0x23, 0x0a, 0x0d, 0x00, 0x1a, 0xff, rng.randint(0, 255)])
        v = struct.unpack('<d', struct.pack('<Q', (rng.randint(1000, 1046) << 52) | (rng.getrandbits(44) << 8) | b))[0]
        v *= rng.choice([1, -1])
    return v


def dataset(rng, nmax=6, kinds=(0, 1, 2), nmin=0):
    if rng.random() < .6:
        pin = rng.choice(list(IN_NAMES)); dx = IN_NAMES[pin]
    else:
        pin, dx = 'UNKNOWN_INPUT', rng.randint(1, 8)
    if rng.random() < .6:
        pout = rng.choice(list(OUT_NAMES)); dy = OUT_NAMES[pout]
    else:
        pout, dy = 'UNKNOWN_OUTPUT', rng.randint(1, 5)
    kind = rng.choice(kinds)
    n = rng.randint(nmin, nmax)
    vals = [value(rng) for _ in range(n * (dx + dy + kind * dy))]
    return 'ds %d %d %s %s %d %d %s' % (dx, dy, pin, pout, kind, n, ' '.join(v.hex() for v in vals)), n
