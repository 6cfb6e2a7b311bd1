"""What is simulated for each property: a stream of jobs (scenario parameters,
workload, fault and schedule swarm) out of one integer."""
import random


def pick(r, *xs):
    return r.choice(xs)


def msg_faults(r, p, heavy=False):
    """message schedule: a random subset of the fault kinds at random rates"""
    if p.get('nranks', 1) == 1:
        return
    kinds = ['stall', 'latency', 'rendezvous', 'coll_sync', 'red_order',
             'test_false', 'waitany_pick']
    for k in kinds:
        if r.random() < (.8 if heavy else .55):
            p['c.p.' + k] = pick(r, .02, .1, .3, .6)
    p['c.stall'] = pick(r, 1000, 100000, 10000000)
    p['c.lat'] = pick(r, 1000, 100000, 10000000)
    if r.random() < .4:
        p['c.eager'] = pick(r, 0, 64, 512, 4096)
    if r.random() < .3:
        p['c.slow'] = r.randrange(p['nranks'])


def thr_faults(r, p, tmin=2):
    p['c.T'] = r.randint(tmin, 5)
    if r.random() < .85:
        p['c.chunk'] = pick(r, 1, 1, 1, 2)
    if r.random() < .4:
        p['c.queue'] = r.randint(1, 8)
    p['c.quantum'] = pick(r, 50, 500, 500, 5000)
    p['c.p.preempt'] = pick(r, .02, .1, .3, .6)
    p['c.p.thread_pick'] = pick(r, .2, .5, .9)
    if r.random() < .35:
        # workers that stop where the code rarely comes by, until others have
        # finished whole items
        p['c.p.freeze'], p['c.cold'] = pick(r, .001, .003, .01), pick(r, 3, 6, 12, 40)
        if r.random() < .5:
            p['c.quantum'], p['c.p.preempt'] = 5000, pick(r, .02, .1)


def comm(r, p, prob=.35):
    if r.random() < prob:
        if p['nranks'] >= 2 and r.random() < .6:
            p['comm'] = 'split'
            p['outside'] = 1 << r.randrange(p['nranks'])
            p['reverse'] = r.randint(0, 1)
        else:
            p['comm'] = 'dup'


def inner_ranks(p):
    return p['nranks'] - (1 if p.get('comm') == 'split' else 0)


def mesh(r, p, kinds=('rect', 'ball', 'ell', 'islands', 'cube'), dims=(2, 2, 2, 3),
         big=False):
    d = p['dim'] = pick(r, *dims)
    k = p['mesh'] = pick(r, *kinds)
    if k == 'rect':
        p['sx'], p['sy'] = r.randint(1, 4), r.randint(1, 3)
        p['ref'] = 1
        if d == 3:
            p['sx'], p['sy'], p['sz'] = r.randint(1, 2), r.randint(1, 2), 1
        elif r.random() < .3:
            p['sx'], p['sy'], p['ref'] = r.randint(2, 7), r.randint(2, 6), 0
    elif k == 'ball':
        p['ref'] = 1 if d == 2 else 0
    elif k == 'ell':
        p['ref'] = pick(r, 1, 1, 2) if d == 2 else 0
    elif k == 'cube':
        p['ref'] = pick(r, 1, 2, 2, 3) if d == 2 else 1
    elif k == 'islands':
        p['islands'] = r.randint(2, 3)
        p['sx'], p['sy'], p['sz'] = r.randint(2, 4), r.randint(2, 4), 1
        p['ref'] = 0
        if d == 3:
            p['sx'] = p['sy'] = 2
    p['mat'] = pick(r, 0, 1, 2, 3)
    return p


def blocks(r, p, lo=1, hi=4):
    p['part'] = 'block'
    p['nx'], p['ny'] = r.randint(lo, hi), r.randint(lo, hi)
    if p['dim'] == 3:
        p['nz'] = r.randint(lo, 2)


def agglomeration(r, p, lo=1, hi=4, graph=.3):
    if r.random() < graph:
        p['part'] = pick(r, 'zoltan', 'metis')
        p['nagg'] = r.randint(2, 6)
    else:
        blocks(r, p, lo, hi)


def eig(r, p, kinds, mf):
    k = p['eig'] = pick(r, *kinds)
    p['nev'] = pick(r, 1, 1, 2)
    if k in ('lapack', 'arpack'):
        p['nev'] = pick(r, 1, 2, 3)
    if k in ('lanczos', 'anasazi'):
        p['mat'] = pick(r, 1, 2)
    if k == 'anasazi':
        p['tol'] = '1e-8'
        p['guess'] = r.randint(0, 1)
        p['maxit'] = 500
    return p


# the units of the operator; the iterative eigensolvers have absolute tolerances
def scale(r, p, prob=.3):
    if r.random() < prob and p.get('eig', 'arpack') in ('lapack', 'arpack'):
        p['scale'] = pick(r, '1e-12', '1e-7', '1e-3', '1e3', '1e6', '1e9')


def base(r, ranks):
    return {'nranks': pick(r, *ranks)}


# every agglomerate has free unknowns and a positive definite operator
def safe_bc(r, p):
    p['bc'] = pick(r, 0, 0, 2)
    p['mass'] = pick(r, '.1', '1')


# ---------------------------------------------------------------- properties
def any_setup(r, ranks=(1, 1, 2, 3), mf_share=.4, kinds=None):
    p = base(r, ranks)
    p['scen'] = 'setup'
    mf = p['mf'] = int(r.random() < mf_share)
    mesh(r, p)
    iterative = ('lanczos', 'anasazi')
    eig(r, p, kinds or (iterative if mf else ('lapack', 'lapack', 'arpack') + iterative), mf)
    safe_bc(r, p)
    if p['eig'] in ('lapack', 'arpack'):
        p['bc'] = pick(r, 0, 1, 2)
        agglomeration(r, p)
        if r.random() < .2:
            p['mat'], p['contrast'] = 4, pick(r, '1e2', '1e3', '1e4')
    else:
        agglomeration(r, p, 2, 4, graph=0)
    return p


# recycled eigenvectors travel from item to item of a worker, through
# agglomerates of different sizes
def recycling(r):
    p = {'nranks': 1, 'scen': 'setup', 'mf': r.randint(0, 1), 'dim': 2,
         'mesh': pick(r, 'rect', 'ball'), 'ref': 1, 'mat': 2, 'eig': 'anasazi', 'nev': 1,
         'tol': '1e-8', 'guess': 1, 'maxit': 500, 'bc': 0, 'mass': '.1', 'part': 'block',
         'nx': 3, 'ny': 2, 'check': 'same'}
    if p['mesh'] == 'rect':
        p['sx'], p['sy'] = pick(r, (2, 2), (4, 1), (2, 4), (4, 2))
    thr_faults(r, p)
    p['c.chunk'] = 1
    p['c.quantum'], p['c.p.preempt'] = pick(r, 500, 5000), pick(r, .02, .1)
    p['c.p.freeze'], p['c.cold'] = pick(r, .001, .003, .01), pick(r, 3, 4, 6, 10)
    return p


def c01(r):
    if r.random() < .1:
        return recycling(r)
    p = any_setup(r, (1, 1, 1, 2))
    if p['eig'] == 'arpack':
        # ARPACK's random vectors choose a basis for a multiple eigenvalue: a
        # known finding, see the corpus
        p['bc'] = pick(r, 0, 2)
        p['nev'] = 1
        blocks(r, p, 2, 4)
    if r.random() < .3:
        p['fast_ap'] = 1
    p['check'] = 'same'
    thr_faults(r, p)
    scale(r, p, .1)
    return p


def c02(r):
    p = any_setup(r, (1, 1, 2, 3, 4))
    p['fast_ap'] = int(r.random() < .75)
    p['check'] = 'ap,ac'
    if p['eig'] in ('lanczos', 'anasazi') or r.random() < .6:
        thr_faults(r, p)
    msg_faults(r, p)
    scale(r, p, .35)
    return p


def c03(r):
    if r.random() < .6:
        p = any_setup(r, (2, 2, 3, 4))
        p['check'] = 'same'
        if r.random() < .3:
            p['fast_ap'] = 1
        if r.random() < .3:
            comm(r, p, 1.)
    else:
        p = c07(r, ranks=(2, 3, 4))
        p['nev'] = 1
        p['check'] = 'same'
    for k in [k for k in p if k.startswith('c.')]:
        del p[k]
    msg_faults(r, p, heavy=True)
    scale(r, p, .15)
    return p


def c04(r):
    u = r.random()
    if u < .5:
        p = any_setup(r, (2, 3, 4))
        if r.random() < .3:
            p['fast_ap'] = 1
        if r.random() < .35:
            # processes without cells
            p['dim'], p['mesh'] = 2, 'rect'
            p['sx'], p['sy'], p['ref'] = r.randint(1, 2), 1, pick(r, 0, 0, 1)
            p['bc'], p['mass'] = 0, '.1'
            p['nev'] = 1
            p['nranks'] = r.randint(3, 5)
        p['check'] = 'none'
    elif u < .85:
        p = c07(r, ranks=(2, 3, 4))
        p['check'] = 'none'
    else:
        p = c10(r)
        p['nranks'] = r.randint(2, 4)
        p['check'] = 'none'
    for k in [k for k in p if k.startswith('c.')]:
        del p[k]
    p.pop('comm', None)
    comm(r, p, .6)
    msg_faults(r, p, heavy=True)
    if r.random() < .3:
        thr_faults(r, p)
    return p


def c05(r):
    p = base(r, (1, 2, 2, 3, 4))
    p['scen'] = 'agglo'
    mesh(r, p)
    if p['mesh'] == 'rect' and r.random() < .4:
        p['sx'], p['sy'] = r.randint(1, 5), r.randint(1, 5)
        if p['dim'] == 3:
            p['sx'], p['sy'], p['sz'], p['ref'] = (r.randint(1, 3), r.randint(1, 3),
                                                   r.randint(1, 3), 0)
    p['bc'] = pick(r, 1, 2)
    rounds = []
    for _ in range(r.randint(1, 4)):
        part = pick(r, 'block', 'block', 'block', 'zoltan', 'metis')
        rounds.append('%s:%d:%d:%d:%d' % (part, r.randint(1, 4), r.randint(1, 4),
                                          r.randint(1, 3), r.randint(1, 6)))
    if r.random() < .2:
        # the graph partitioners also know meshes with hanging nodes
        p['hang'], p['bc'] = r.randint(1, 999), 0
        rounds = ['%s:1:1:1:%d' % (pick(r, 'zoltan', 'metis'), r.randint(1, 8))
                  for _ in rounds]
    p['plan'] = '|'.join(rounds)
    if r.random() < .5 and 'hang' not in p:
        p['bids'] = r.randint(1, 999)
    p['fresh_amge'] = r.randint(0, 1)
    if r.random() < .4:
        p['dirty'] = r.randint(1, 999)
    comm(r, p)
    msg_faults(r, p)
    return p


def c06(r):
    p = any_setup(r, (1, 2, 3, 4), mf_share=.15, kinds=None)
    p['eig'] = 'lapack' if not p['mf'] else p['eig']
    if p['eig'] == 'lapack':
        for k in ('tol', 'guess', 'maxit'):
            p.pop(k, None)
        p['nev'] = pick(r, 1, 1, 2, 3)
        if r.random() < .5:
            p['bc'], p['mass'] = 0, '0'
            p['nev'] = pick(r, 1, 1, 2)
        else:
            p['bc'] = pick(r, 0, 1, 2)
        agglomeration(r, p)
        if p['mesh'] == 'rect' and p['dim'] == 2 and r.random() < .3:
            p['deg'] = 2
    p['check'] = 'shape,agg,pou,eig,ac'
    comm(r, p, .25)
    if r.random() < .5:
        thr_faults(r, p)
    msg_faults(r, p)
    scale(r, p, .3)
    return p


def solver_problem(r, ranks):
    p = base(r, ranks)
    mesh(r, p, kinds=('rect', 'ball', 'ell', 'cube'))
    if p['mesh'] == 'cube' and p['dim'] == 2:
        p['ref'] = pick(r, 2, 2, 3)
    if p['mesh'] == 'rect' and p['dim'] == 2:
        p['sx'], p['sy'], p['ref'] = r.randint(2, 4), r.randint(1, 3), 1
    p['mat'] = pick(r, 0, 1, 2, 3)
    safe_bc(r, p)
    p['eig'], p['nev'] = 'lapack', 1
    p['mf'] = 0
    blocks(r, p, 2, 3)
    return p


def c07(r, ranks=(1, 1, 2, 3)):
    p = solver_problem(r, ranks)
    p['scen'] = 'apply'
    u = r.random()
    if r.random() < .2:
        p['nev'], p['bc'] = 2, 0
    if u < .2:
        # matrix-free
        p['mf'] = 1
        p['eig'], p['nev'], p['mat'] = 'lanczos', 1, pick(r, 1, 2)
        p['smoother'] = 'Chebyshev'
        if r.random() < .6:
            p['cheb_degree'] = r.randint(1, 4)
        if r.random() < .4:
            p['cheb_range'] = pick(r, '0', '3', '10', '20')
        if r.random() < .2:
            p['cheb_range'], p['cheb_max'] = '0', pick(r, '2', '4')
        p['check'] = 'ref,coarse,smoother'
    else:
        p['check'] = 'ref,coarse,smoother'
        if r.random() < .9:
            p['smoother'] = pick(r, 'Symmetric_Gauss-Seidel', 'Symmetric_Gauss-Seidel',
                                 'Gauss-Seidel', 'Jacobi', 'ILU')
        if 'Symm' in p.get('smoother', 'Symm') and p['nranks'] <= 2:
            p['check'] += ',spd'
            p['pcg'] = int(r.random() < .3)
    p['nsm'] = pick(r, 0, 1, 1, 2, 3)
    if p['nsm'] == 0:
        p['check'] = 'ref,coarse'
        p.pop('pcg', None)
    p['prec'] = pick(r, 1, 1, 0)
    if not p['prec']:
        p.pop('pcg', None)
    if r.random() < .15:
        p['levels'] = 1
        p['check'] = 'ref'
    p['coarse'] = pick(r, 'direct', 'direct', 'ml')
    if p.get('levels') == 1 and p['mf']:
        p['levels'] = 2
        p['check'] = 'ref,coarse'
    if p['coarse'] == 'ml':
        p['check'] = p['check'].replace(',spd', '')
    if r.random() < .2 and not p['mf'] and p.get('levels', 2) == 2:
        p['fast_ap'] = 1
        p['check'] = p['check'].replace(',spd', '')
    if ',spd' not in p['check']:
        p.pop('pcg', None)
    msg_faults(r, p)
    scale(r, p, .25)
    return p


def c08(r):
    p = solver_problem(r, (1, 1, 2, 3))
    p['scen'] = 'fault'
    p['fault'] = pick(r, 'cb', 'alloc')
    p['phase'] = pick(r, 'setup', 'setup', 'setup', 'apply')
    p['timer'] = r.randint(0, 1)
    p['point'] = r.randrange(1 << 20)
    if r.random() < .3:
        p['mf'] = 1
        p['eig'], p['nev'], p['mat'] = 'lanczos', 1, pick(r, 1, 2)
        p['smoother'] = 'Chebyshev'
    elif r.random() < .35:
        p['nev'], p['bc'] = 2, 0
    if p['fault'] == 'alloc':
        p['nranks'] = 1
    else:
        # a struct of its own or one of the standard library's exceptions
        p['c.exc'] = r.randrange(6)
    if r.random() < .2:
        p['fast_ap'] = 1
    msg_faults(r, p)
    if p['fault'] == 'cb' and r.random() < .4:
        thr_faults(r, p)
    return p


def c09(r):
    p = solver_problem(r, (1, 2, 3))
    p['scen'] = 'timer'
    p['nsm'] = pick(r, 0, 1, 2)
    p['prec'] = pick(r, 1, 0)
    p['coarse'] = pick(r, 'direct', 'direct', 'ml')
    if r.random() < .2:
        # (ML starts from random vectors of a stream that all its users share)
        p['levels'], p['coarse'] = 1, 'direct'
    if r.random() < .3:
        p['fast_ap'] = 1
    if r.random() < .25 and 'levels' not in p:
        p['mf'] = 1
        p['eig'], p['nev'], p['mat'] = 'lanczos', 1, pick(r, 1, 2)
        p['smoother'] = 'Chebyshev'
    p['c.p.clock_jump'] = pick(r, .1, .5, .9)
    msg_faults(r, p)
    thr_faults(r, p)
    return p


def c10(r):
    p = base(r, (1, 2, 3, 4))
    p['scen'] = 'algebra'
    p['mseed'] = r.randrange(1 << 20)
    for k in 'mkn':
        p[k] = r.randint(1, 20)
    p['m'] = r.randint(4, 24)
    p['holes'] = r.randint(0, 1)
    p['density'] = pick(r, .05, .2, .4, .8)
    p['order'] = r.randrange(27)
    p['coarse'] = 'direct'
    if r.random() < .4:
        # the units of the operands
        for k in ('ea', 'eb', 'ed'):
            p[k] = pick(r, 0, -60, -40, -25, 20, 40)
    if r.random() < .5:
        p['places'] = r.randint(2, 6)
    comm(r, p)
    msg_faults(r, p)
    return p


# the library's own eigensolver, by itself, on known spectra
def lanczos(r):
    p = {'nranks': pick(r, 1, 1, 2), 'scen': 'lanczos', 'salt': r.randrange(1 << 20)}
    p['distinct'] = r.randint(8, 40)
    p['mult'] = pick(r, 1, 1, 2, 3)
    if r.random() < .5:
        # constrained unknowns get eigenvalues far from the others
        p['outliers'], p['big'] = r.randint(1, 2), pick(r, '100', '200', '1e3')
    if r.random() < .5:
        p['rotate'] = 1
    if r.random() < .4:
        p['shared'] = 0
    if r.random() < .3:
        p['overshoot'] = 5
    p['tol'] = pick(r, '1e-6', '1e-5', '1e-4')
    w = []
    for _ in range(r.randint(1, 5)):
        if r.random() < .5:
            cycles, per = 1, r.randint(1, 5)
        else:
            cycles, per = r.randint(2, 3), r.randint(1, 3)
        while (cycles * per > p['distinct'] - 5):
            per -= 1
        nev = r.randint(max(1, cycles * per - 2), cycles * per)
        w.append('%d:%d:%d' % (nev, per, cycles))
        if cycles == 3 and p['mult'] > 1:
            # what is left of the third copy in the vector it starts from may be
            # too small to be found first
            p['smallest'] = 0
    p['plan'] = '|'.join(w)
    thr_faults(r, p)
    p['c.quantum'] = pick(r, 20, 50, 200)
    return p


def c11(r):
    if r.random() < .12:
        return lanczos(r)
    p = any_setup(r, (1, 1, 1, 2))
    p['check'] = 'eig'
    if r.random() < .3:
        p['fast_ap'] = 1
    thr_faults(r, p)
    msg_faults(r, p)
    scale(r, p)
    if p['eig'] in ('lapack', 'arpack') and r.random() < .3:
        # singular operators
        p['bc'], p['mass'] = 0, '0'
        if r.random() < .5:
            p['scale'] = pick(r, '1e-12', '1e-7')
    if p['eig'] == 'lanczos' and r.random() < .4:
        # several cycles, each of which deflates what the others have found
        p['nev'], p['deflate'] = pick(r, (2, '2:1'), (2, '1:2'), (1, '1:1'), (3, '2:2'),
                                      (3, '3:1'), (1, '2:1'))
        if p['mesh'] == 'islands' or p['bc']:
            # ... in agglomerates that have that many free unknowns
            p['nev'], p['deflate'] = pick(r, (2, '2:1'), (1, '1:1'))
    if p['eig'] == 'anasazi' and p['nranks'] == 1 and p['bc'] != 1 and r.random() < .25:
        # not enough iterations: it has to say so
        p['maxit'], p['mayfail'] = pick(r, 1, 2, 3, 5, 8, 15, 30), 1
    return p


def c12(r):
    p = solver_problem(r, (1, 2, 3, 3))
    p['scen'] = 'errors'
    mf = p['mf'] = int(r.random() < .35)
    if mf:
        p['eig'], p['nev'], p['mat'] = 'lanczos', 1, pick(r, 1, 2)
        p['smoother'] = 'Chebyshev'
    bad = [('coarse.type', 'bogus'), ('coarse.type', 'directt'),
           ('agglomeration.partitioner', 'bogus'),
           ('agglomeration.partitioner', '<erase>'),
           ('agglomeration.nx', '<erase>'), ('agglomeration.ny', '<erase>'),
           ('agglomeration', '<erase>'), ('eigensolver', '<erase>'),
           ('eigensolver.type', 'bogus'), ('eigensolver.type', 'Lapackk'),
           ('smoother.type', 'bogus'), ('smoother.type', 'SOR'),
           ('max_levels', '0'), ('max_levels', '-1')]
    if mf:
        bad += [('eigensolver.type', 'arpack'), ('eigensolver.type', 'lapack')] * 3
    p['badkey'], p['badval'] = pick(r, *bad)
    k = r.random()
    if k > .75:
        # names that resemble valid ones, or are valid somewhere else
        names = {'coarse.type': ('direct', 'ml'),
                 'agglomeration.partitioner': ('zoltan', 'metis', 'block'),
                 'eigensolver.type': ('lapack', 'arpack', 'lanczos', 'anasazi'),
                 'smoother.type': ('chebyshev',) if mf else
                                  ('symmetric', 'gauss-seidel', 'jacobi', 'ilu')}
        key = p['badkey'] = pick(r, *sorted(names))
        name = pick(r, *names[key])
        p['badval'] = pick(r, name + name[-1], name + '2', 'x' + name, name[:-1], 'no-' + name,
                           *[v for o in sorted(names) for v in names[o] if o != key])
    if k < .1:
        # mandatory parameters that only the eigensolvers ask for
        p['eig'], p['nev'], p['mat'], p['tol'], p['maxit'] = 'anasazi', 1, pick(r, 1, 2), '1e-8', 500
        p['badkey'] = pick(r, 'eigensolver.tolerance', 'eigensolver.number_of_eigenvectors')
        p['badval'] = '<erase>'
    elif k < .15:
        p['eig'], p['nev'], p['mat'] = 'lanczos', 1, pick(r, 1, 2)
        p['badkey'], p['badval'] = 'eigensolver.is~deflated', 'true'
    elif k < .2:
        p['part'], p['nagg'] = pick(r, 'zoltan', 'metis'), 2
        p['eig'], p['nev'] = ('lanczos', 1) if mf else ('lapack', 1)
        p['badkey'], p['badval'] = 'agglomeration.n~agglomerates', '<erase>'
    elif k < .25 and mf:
        p['badkey'], p['badval'] = 'smoother.type', pick(r, 'Jacobi', 'Symmetric_Gauss-Seidel')
    elif k < .35:
        # requests that Lanczos cannot meet
        p['eig'], p['nev'], p['mat'] = 'lanczos', 1, pick(r, 1, 2)
        p['badkey'], p['badval'] = pick(r, ('eigensolver.max~iterations', '0'),
                                        ('eigensolver.number_of_eigenvectors', '201'))
        if r.random() < .5:
            p['deflate'] = '1:1'
            p['badkey'], p['badval'] = pick(r, ('eigensolver.num~cycles', '0'),
                                            ('eigensolver.num~eigenpairs~per~cycle', '0'),
                                            ('eigensolver.num~eigenpairs~per~cycle', '-2'),
                                            ('eigensolver.num~eigenpairs~per~cycle', '500'),
                                            ('eigensolver.number_of_eigenvectors', '2'),
                                            ('eigensolver.num~cycles', '<erase>'),
                                            ('eigensolver.num~eigenpairs~per~cycle', '<erase>'))
    elif k < .4 and not mf and p['nranks'] == 1:
        # more vectors than an agglomerate has unknowns
        p['eig'] = pick(r, 'lapack', 'arpack')
        p['badkey'], p['badval'] = 'eigensolver.number_of_eigenvectors', '1000'
    if r.random() < .3 and p['badval'] != '1000':
        # idle processes
        p['dim'], p['mesh'], p['sx'], p['sy'], p['ref'] = 2, 'rect', r.randint(1, 2), 1, 0
        p['bc'], p['mass'], p['nev'] = 0, '.1', 1
        p['nranks'] = 3
    if r.random() < .3:
        p['fast_ap'] = 1
    msg_faults(r, p)
    if r.random() < .3:
        thr_faults(r, p)
    return p


def c13(r):
    p = solver_problem(r, (1, 1, 2, 3))
    p['scen'] = 'history'
    p['rounds'] = r.randint(2, 4)
    p['pattern'] = r.randrange(8) & ~1 if r.random() < .7 else 0
    p['drop'] = r.randint(0, 1)
    p['release'] = r.randint(0, 1)
    if r.random() < .25:
        p['mf'] = 1
        p['eig'], p['nev'], p['mat'] = 'lanczos', 1, pick(r, 1, 2)
        p['smoother'] = 'Chebyshev'
    if r.random() < .3:
        p['fast_ap'] = 1
    if r.random() < .3:
        p['part'], p['nagg'] = pick(r, 'zoltan', 'metis'), r.randint(2, 4)
        p['nev'] = 1
    p['coarse'] = pick(r, 'direct', 'direct', 'ml')
    p['prec'] = pick(r, 1, 1, 0)
    # what the other hierarchies in between look like
    for k, v in (('nx', r.randint(2, 4)), ('ny', r.randint(2, 4)), ('nev', 1),
                 ('nsm', r.randint(1, 3)), ('prec', r.randint(0, 1))):
        if r.random() < .6:
            p['alt.' + k] = v
    if r.random() < .4:
        p['alt.part'], p['alt.nagg'] = pick(r, 'zoltan', 'metis', 'block'), r.randint(2, 4)
    if r.random() < .4:
        # the other values go into the same parameter tree, and out again
        p['shared'], p['nsm'] = 1, pick(r, 1, 1, 2)
        for k in [k for k in p if k[:4] == 'alt.' and k[4:] not in p]:
            del p[k]
        p.pop('alt.part', None)
        p.pop('alt.nagg', None)
        if r.random() < .4 and not p['mf']:
            p['levels'] = 1
            p['coarse'] = pick(r, 'direct', 'ml')
            p['alt.prec'] = 1 - p['prec']
        p['pattern'] = pick(r, 1, 2, 3, 5)
    if r.random() < .4:
        p['remesh'] = r.randint(1, 999)
    if r.random() < .4:
        p['soil'] = r.randint(1, 999)
    if r.random() < .4:
        p['decoy'] = r.randint(1, 7)
    if r.random() < .15:
        # enough cells for the graph partitioner to draw random numbers
        for k in ('sz', 'islands', 'alt.nev', 'smoother', 'levels', 'adapt'):
            p.pop(k, None)
        p['dim'], p['mesh'], p['mf'], p['nev'] = 2, 'rect', 0, 1
        if p['eig'] == 'anasazi':
            p['eig'] = 'lapack'
        p['sx'], p['sy'], p['ref'] = r.randint(10, 18), r.randint(9, 14), 0
        p['part'], p['nagg'] = pick(r, 'zoltan', 'zoltan', 'metis'), r.randint(2, 6)
        if 'shared' not in p:
            p['alt.part'], p['alt.nagg'] = pick(r, 'zoltan', 'metis'), r.randint(2, 6)
    msg_faults(r, p)
    if r.random() < .4:
        thr_faults(r, p)
    return p


def c14(r):
    p = base(r, (1, 2, 3, 4))
    p['scen'] = 'output'
    mesh(r, p)
    p['bc'] = pick(r, 0, 1, 2)
    p['mass'] = '.1'
    agglomeration(r, p)
    p['rounds'] = pick(r, 1, 1, 2)
    if r.random() < .3:
        p['stale'] = 1
    p['c.p.io_fault'] = pick(r, .1, .3, .6)
    msg_faults(r, p)
    comm(r, p, .25)
    return p


def c15(r):
    p = solver_problem(r, (1, 1, 2, 3))
    p['scen'] = pick(r, 'setup', 'setup', 'apply')
    p['mf'] = 1
    p['eig'], p['nev'], p['mat'] = 'lanczos', 1, pick(r, 1, 2)
    p['smoother'] = 'Chebyshev'
    p['check'] = 'none'
    if r.random() < .4:
        eig(r, p, ('anasazi',), True)
    if r.random() < .4:
        p['fast_ap'] = 1
    comm(r, p, .2)
    msg_faults(r, p)
    thr_faults(r, p)
    return p


def c16(r):
    p = solver_problem(r, (1, 1, 2, 3))
    p['scen'] = 'conserve'
    p['rounds'] = 5
    if r.random() < .3:
        p['mf'] = 1
        p['eig'], p['nev'], p['mat'] = 'lanczos', 1, pick(r, 1, 2)
        p['smoother'] = 'Chebyshev'
    if r.random() < .4:
        p['fast_ap'] = 1
    p['coarse'] = pick(r, 'direct', 'direct', 'ml')
    if r.random() < .3 and not p['mf']:
        p['eig'] = 'arpack'
    if r.random() < .15 and not p['mf']:
        p['levels'] = 1
    p['keep'] = pick(r, 0, 0, 1, 2, 3, 7)
    comm(r, p, .2)
    msg_faults(r, p)
    if r.random() < .5:
        thr_faults(r, p)
    return p


GEN = {'C%02d' % i: globals()['c%02d' % i] for i in range(1, 17)}


def job(prop, seed, index):
    r = random.Random('%s/%d/%d' % (prop, seed, index))
    p = GEN[prop](r)
    # LOBPCG completes its block with random vectors, which are not zero at
    # constrained unknowns; a matrix-free operator has no shift there
    if p.get('eig') == 'anasazi' and p.get('nev', 1) > 1:
        # ... and whose block of three times as many vectors has to fit into the
        # agglomerate with room to spare: it may iterate for ever otherwise
        if p['dim'] == 3 or p['mesh'] in ('islands', 'rect') or p.get('part') != 'block':
            p['nev'] = 1
        else:
            p['bc'] = 0
            p['nx'], p['ny'] = max(p['nx'], 2), max(p['ny'], 2)
    # several recycled vectors: a known finding, see the corpus
    if p.get('guess') and p.get('nev', 1) > 1 and prop != 'C02':
        p['guess'] = 0
    if p.get('bc', 1) != 1 and 'bids' not in p and r.random() < .2:
        p['bids'] = r.randint(1, 999)
    # material ids mean something to the user, nothing to the library
    if p.get('mesh') and r.random() < .25:
        p['matids'] = r.randint(2, 5)
    p['id'] = '%s-%d-%d' % (prop, seed, index)
    p['seeds'] = ','.join(str(r.randrange(1, 1 << 31)) for _ in range(3))
    return p
