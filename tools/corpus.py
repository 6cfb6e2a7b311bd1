"""Directed jobs, run before the random ones, and what all the checks assume."""
import random

ASSUMPTIONS = [
    "The libraries below mfmg behave as their installed versions do; their threads are off.",
    "MPI is non-overtaking and otherwise as free as the standard allows; ranks do not die "
    "(the code has no recovery from a lost process).",
    "User evaluators are deterministic functions of the cells they are given.",
    "Only the host backend is built (no CUDA compiler here).",
]

JOBS = {
    # known finding: ARPACK completes its vectors with random ones, whose stream
    # all agglomerates share, where the eigenvalues of an agglomerate are multiple
    "C01": [
        dict([kv.split("=", 1) for kv in
              "nranks=1 scen=setup mf=0 dim=2 mesh=islands islands=2 sx=2 sy=4 sz=1 ref=0 mat=1 "
              "eig=arpack nev=2 bc=1 mass=.1 part=zoltan nagg=4 check=same c.T=2 c.chunk=1 "
              "c.queue=5 c.quantum=500 c.p.preempt=0.02 c.p.thread_pick=0.9 scale=1e9 "
              "seeds=1892207206,1078643096,216372345".split()]),
    ],
    # known finding: LOBPCG misses an eigenvector to which the recycled ones are
    # orthogonal by symmetry
    "C11": [
        dict(nranks=1, scen="setup", mf=0, dim=2, mesh="ball", ref=1, mat=2, eig="anasazi",
             nev=2, tol="1e-8", guess=1, maxit=500, bc=0, mass=1, part="block", nx=2, ny=2,
             check="eig"),
    ],
}


def jobs(prop, seed):
    r = random.Random("directed/%s/%d" % (prop, seed))
    out = []
    for k, j in enumerate(JOBS.get(prop, [])):
        j = dict(j)
        j["id"] = "%s-d%d" % (prop, k)
        j.setdefault("seeds", ",".join(str(r.randrange(1, 1 << 31)) for _ in range(3)))
        out.append(j)
    return out
