"""Independent device models, written from the device documentation.

mos(kind, par, d, g, s, b) -> drain current (into d, out of s).
"""
import math

K = 1.3806503e-23
Q = 1.60217646e-19


def vth(T=300.):
    return K * T / Q


def sexp(x):
    return math.exp(x) if x < 70 else math.exp(70) + 10 * x


def eg(T):
    return 1.16 - 0.000702 * T * T / (1108. + T)


def diode(par, v, area=1., T=300.):
    """Shockley diode: returns (I, dI/dV)."""
    IS, N = par.get('IS', 1e-14), par.get('N', 1.)
    NBV, BV = par.get('NBV', 1.), par.get('BV', math.inf)
    ISR, NR = par.get('ISR', 0.), par.get('NR', 2.)
    RS, IKF = par.get('RS', 0.), par.get('IKF', math.inf)
    T0 = 300.
    XTI = par.get('XTI', 3.)
    if T != T0:
        IS = IS * (T / T0) ** (XTI / N) * math.exp(-Q * eg(300.) / (N * K * T) * (1 - T / T0))
        BV = BV - par.get('TBV', 0.) * (T - T0)
        RS = RS * (1 + par.get('TRS', 0.) * (T - T0))
    vt = vth(T)

    def j(u):
        f = IS * (sexp(u / (N * vt)) - 1)
        gf = IS / (N * vt) * sexp(u / (N * vt))
        if 0 < IKF < math.inf and f > 0:
            k = math.sqrt(IKF / (IKF + f))
            gf = gf * k * (1 - .5 * f / (IKF + f))
            f = f * k
        r = ISR * (sexp(u / (NR * vt)) - 1)
        gr = ISR / (NR * vt) * sexp(u / (NR * vt))
        b = -IS * sexp(-(u + BV) / (NBV * vt))
        gb = -b / (NBV * vt)
        return f + r + b, gf + gr + gb
    if not RS:
        i, g = j(v)
        return area * i, area * g
    lo, hi = min(0., v), max(0., v)     # junction voltage
    for _ in range(200):
        mid = .5 * (lo + hi)
        if mid + RS * j(mid)[0] > v:
            hi = mid
        else:
            lo = mid
    i, g = j(.5 * (lo + hi))
    return area * i, area / (RS + 1. / max(g, 1e-300))


def mosq(par, d, g, s, b):
    sg = 1. if par.get('TYPE', 'n') == 'n' else -1.
    d, g, s, b = (sg * x for x in (d, g, s, b))
    cs = 1.
    if d < s:
        d, s, cs = s, d, -1.
    VTO = abs(par.get('VTO', .5)) if par.get('VTO') is None else sg * par['VTO']
    PHI, GAM = par.get('PHI', .7), par.get('GAMMA', 1.)
    LAM, KP = par.get('LAMBDA', .5), par.get('KP', 50e-6)
    vds, vgs, vbs = d - s, g - s, b - s
    VT = VTO + GAM * (math.sqrt(max(2 * PHI - vbs, 0.)) - math.sqrt(2 * PHI))
    beta = KP * par['w'] / par['l'] * par.get('m', 1) / par.get('n', 1)
    vov = vgs - VT
    if vov < 0:
        i = 0.
    elif vds < vov - .5 * LAM * vov ** 2:
        i = beta * (vov * vds - .5 * vds ** 2)
    else:
        i = .5 * beta * vov ** 2 * (1 + LAM * (vds - vov + .25 * LAM * vov ** 2))
    return sg * cs * i, vov


def _small(v):
    """i such that v = ln(q) + 2q, q = sqrt(1/4 + i) - 1/2 (bisection)"""
    lo, hi = -800., max(1., math.log(max(v, 1.)))
    for _ in range(200):
        m = .5 * (lo + hi)
        if m + 2 * math.exp(m) > v:
            hi = m
        else:
            lo = m
    q = math.exp(.5 * (lo + hi))
    return q * q + q


def ekv(par, d, g, s, b, esi=None):
    """EKV 2.6 current and its charge-based conductances (gmd, gmg, gms)."""
    Ut = vth(300.)
    sg = 1. if par.get('TYPE', 'n') == 'n' else -1.
    VD, VG, VS = sg * (d - b), sg * (g - b), sg * (s - b)
    cs = 1.
    if VS > VD:
        VD, VS, cs = VS, VD, -1.
    VTO = .5 if par.get('VTO') is None else sg * par['VTO']
    PHI, GAM = par.get('PHI', .7), par.get('GAMMA', 1.)
    LAM, KP = par.get('LAMBDA', .5), par.get('KP', 50e-6)
    COX, XJ, UC = par.get('COX', .7e-3), par.get('XJ', .1e-6), 2e6
    esi = 104.5e-12 if esi is None else esi
    W, L, M, N = par['w'], par['l'], par.get('m', 1), par.get('n', 1)
    sp = math.sqrt(PHI)
    if VG - VTO + PHI + GAM * sp > 0:
        VP = VG - VTO - GAM * (math.sqrt(VG - VTO + (sp + GAM / 2) ** 2) - (sp + GAM / 2))
    else:
        VP = -PHI
    nq = 1 + .5 * GAM / math.sqrt(PHI + .5 * VP)
    nv = 1 + .5 * GAM / math.sqrt(PHI + VP + 1e-12)
    Is = 2 * nq * Ut ** 2 * KP * W / L
    EPS = 10 * 2.220446049250313e-16
    ifn = max(_small((VP - VS) / Ut), EPS)
    vd, vs = VD / Ut, VS / Ut
    Vc = UC * N * L
    Vdss = Vc * (math.sqrt(.25 + Ut / Vc * math.sqrt(ifn)) - .5)
    Vdssp = Vc * (math.sqrt(.25 + Ut / Vc * (math.sqrt(ifn) - .75 * math.log(ifn))) - .5) \
        + Ut * (math.log(.5 * Vc / Ut) - .6)
    Vds = (vd - vs) * .5 * Ut
    dv = 4 * Ut * math.sqrt(LAM * (math.sqrt(ifn) - Vdss / Ut) + 1. / 64)
    Vip = math.sqrt(Vdss ** 2 + dv ** 2) - math.sqrt((Vds - Vdss) ** 2 + dv ** 2)
    Lc = math.sqrt(esi * XJ / COX)
    dl = LAM * Lc * math.log(1 + (Vds - Vip) / (Lc * UC))
    Lp = N * L - dl + (Vds + Vip) / UC
    Leq = .5 * (Lp + math.sqrt(Lp ** 2 + (N * L / 10) ** 2))
    virp = (VP - Vds - VS - math.sqrt(Vdssp ** 2 + dv ** 2)
            + math.sqrt((Vds - Vdssp) ** 2 + dv ** 2)) / Ut
    irn = max(_small(virp), EPS)
    qf, qr = math.sqrt(.25 + ifn) - .5, math.sqrt(.25 + irn) - .5
    I = cs * sg * L / Leq * M * Is * (ifn - irn)
    Gs = 2 * nq * Ut * KP * W / L * M
    if cs > 0:
        gmd, gms = Gs * qr, -Gs * qf
    else:
        gmd, gms = Gs * qf, -Gs * qr
    return I, (gmd, cs * Gs * (qf - qr) / nv, gms)
