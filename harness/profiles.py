"""What each property's sessions look like: the base mix of features with the
property's own ones turned up."""
from gen import prof

CONT = dict(prim=5, strlike=4, dt=2, list=2, set=2, frozenset=1.5, deque=1.5, vtuple=1.5, tuple=1.5,
            dict=2.5, ddict=1.5, counter=1.5, sub=1, bare=1.2, cls=1.5)

PROFILES = {
    "base": prof(),
    "C01": prof(nval=3, nmut=0, nrand=0, nnew=0, nfmt=0, union=.12, again=.05,
                flat=.06, generic=.08, w=dict(list=3, dict=2, deque=.7, tuple=1)),
    "C02": prof(nval=2, nmut=0, nrand=0, nnew=0, nfmt=4, fmtmut=.1, again=.0, union=.12,
                flat=.05, transparent=.08, w=dict(dict=3, counter=1, ddict=.8, strlike=4, dt=2)),
    "C03": prof(cvars=.12, nval=3, nmut=0, nrand=0, nnew=0, ntop=2, nfmt=0, noreuse=.4, csets=.4, styles=.4,
                flat=.06, w=dict(any=1.2, set=1.5, deque=1, counter=.8, strlike=4, cls=4)),
    "C04": prof(rename=.35, alias=.35, case=.5, nmut=3, nfmt=0, nrand=0, ntop=0, flat=.06,
                deny=.15, ncls=(1, 3), default=.4),
    "C05": prof(skip=.12, sser=.12, sde=.12, sif=.15, sfalse=.12, snone=.15, sdef=.15, skipdef=.3,
                skipnone=.3, opt=.35, default=.6, nmut=1, nfmt=1, nval=3, ntop=0, flat=.04),
    "C06": prof(nmut=5, nfmt=0, nrand=0, default=.5, opt=.35, rename=.15, alias=.15, flat=.1,
                skip=.06, sde=.08, kw=.15, noinit=.06, nnew=2, ntop=0),
    "C07": prof(union=.5, tagging=.7, ntop=3, nmut=3, nfmt=1, transparent=.06, ncls=(2, 4),
                opt=.1, w=dict(cls=4, enum=1.5, lit=1, deque=.6, counter=.5, frozenset=.5)),
    "C08": prof(coerce=.02, disabled=.02, nmut=5, nnew=4, nfmt=0, nrand=1, badval=.2, flat=.04,
                w=dict(sub=1, newtype=1, ddict=.6, counter=.6)),
    "C09": prof(coerce=.45, disabled=.35, nmut=4, nfmt=1, badval=.5, nnew=2,
                w=dict(prim=10, sub=1.5, newtype=1.5, cls=4, any=.4)),
    "C10": prof(deny=.6, rename=.15, alias=.2, case=.2, nmut=4, nfmt=1, flat=.15, capture=.05,
                skip=.08, union=.15, tagging=.6, inherit=.15, nrand=0),
    "C11": prof(flat=.35, capture=.12, deny=.2, nmut=4, nfmt=1, ncls=(2, 5), rename=.1, alias=.1,
                case=.15, nrand=0, ntop=0, inherit=.1, skipnone=.1, opt=.25, default=.3),
    "C12": prof(post=.6, nmut=5, nrand=3, badval=.8, union=.2, nnew=2, nfmt=1, flat=.05,
                transparent=.06, generic=.05),
    "C13": prof(union=.35, again=.8, ntop=3, ncls=(2, 4), tagging=.5, plain=.3, nmut=1, nfmt=1,
                inherit=.1, w=dict(cls=4, lit=1.5, enum=1.5)),
    "C14": prof(csers=.35, lsers=.2, fser=.2, fde=.2, regs=.5, nmut=1, nfmt=1, nrand=0, union=.12,
                flat=.04, inherit=.1,
                w=dict(dt=4, strlike=4, prim=8, enum=2, list=3, dict=2)),
    "C15": prof(generic=.6, ncls=(2, 4), nval=3, nmut=2, nfmt=1, nrand=0, w=dict(cls=6, list=3)),
    "C16": prof(cvars=.12, inherit=.6, over=.35, ncls=(2, 5), nmut=2, nfmt=1, case=.3, deny=.2, tagging=.4, styles=.3,
                skipnone=.15, skipdef=.15, csers=.1, noreuse=.4, csets=.3, coerce=.2, w=dict(cls=4)),
    "C17": prof(transparent=.55, badtrans=.12, ncls=(2, 4), nmut=2, nfmt=2, union=.15,
                fser=.08, fde=.08, w=dict(cls=5)),
    "C18": prof(skip=0, fser=0, fde=0, noinit=0, csers=0, lsers=0, post=0, sser=0, sde=0, sif=0, sfalse=0, nval=1, nmut=0, nrand=0, nnew=0, nfmt=0, badval=0, plain=.65, union=.25,
                tagging=.4, generic=.05, inherit=.08, flat=.08, ncls=(2, 4), coerce=.03, disabled=.03,
                w=dict(cls=6, list=2, dict=1.5, any=.4, enum=1)),
    "C19": prof(default=.7, nmut=3, nrand=1, badval=.3, nfmt=1, flat=.06,
                w=dict(list=4, dict=3, set=1.5, deque=1, ddict=.8, bare=.8, any=.8, cls=3)),
    "C20": prof(w=CONT, depth=3, nmut=2, nfmt=1, ntop=3, nval=2, opt=.2, union=.08),
    "C21": prof(w=dict(enum=6, lit=4, dict=3, list=2.5, set=1.5), union=.25, nmut=4, nfmt=2, ntop=2),
    "C22": prof(nfmt=5, fmtmut=.7, copts=.35, nmut=0, nrand=0, nnew=0, flat=.04, capture=.02,
                w=dict(prim=9, sub=1, newtype=1)),
}
