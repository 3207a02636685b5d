"""P17: replace_joint against a world built that way from the start."""
from rv.mech import *
import arboris.controllers as ctl, arboris.constraints as cst

RULE = 'random trees, one to three successive joint replacements (single joint or chain with extra bodies), compared with a fresh world; distinct by mechanism and replacements'
MONITORS = ['same-order', 'same-dofs', 'same-model', 'same-poses', 'same-motion', 'untouched', 'released', 'reusable', 'parents', 'refused']
CLASSES = ['single', 'chain', 'middle-sibling', 'new-frames', 'size-changes', 'repeated', 'pd', 'constraint', 'uninitialised', 'late-link', 'same-total']

def replacement(ctx, rng, T, b, k, want=None):
    """Replace the joint of link k: returns the new tree and new Built."""
    w, l = b.world, T.links[k]; old = b.joints[k]; N = T.copy(); new = None
    def mk(jt):
        return Link('n%d' % rng.integers(10**6), l.parent, jt, rand_q(rng, jt), rng.normal(size=jndof(jt))*.5, l.H_pr, l.H_cn)
    sib = T.children[l.parent]
    if 0 < sib.index(k) < len(sib) - 1 or (len(sib) > 1 and sib.index(k) == 0): ctx.cls('middle-sibling')
    if want is not None or rng.random() < .5:
        ctx.cls('single'); x = mk(str(rng.choice([t for t in sorted(JOINTS) if want is None or jndof(t) == want]))); nl = N.links[k]; nl.jt, nl.q, nl.v = x.jt, x.q, x.v
        nj = make_joint(nl)
        if rng.random() < .5: w.replace_joint(old, nj)
        else: w.replace_joint(old, b.f0[k], nj, b.f1[k])
        b.joints = dict(b.joints); b.joints[k] = nj
        if jndof(nl.jt) != jndof(l.jt): ctx.cls('size-changes')
        N.index(); return N, b, nj
    ctx.cls('chain'); m = int(rng.integers(0, 3)); P = rand_H(rng, .3) if rng.random() < .6 else l.H_pr; C = rand_H(rng, .3) if rng.random() < .6 else l.H_cn
    links, args, bodies = [], [], []
    jt_last = str(rng.choice(sorted(JOINTS)))
    f0 = b.f0[k] if P is l.H_pr else core.SubFrame(b.bodies[l.parent], P, name='new0'); f1 = b.f1[k] if C is l.H_cn else core.SubFrame(b.bodies[k], C, name='new1')
    if P is not l.H_pr or C is not l.H_cn: ctx.cls('new-frames')
    parent, Hp, fr = l.parent, P, f0
    objs = []
    for e in range(m):
        x = mk(str(rng.choice(sorted(JOINTS)))); x.cloud = rand_cloud(rng) if rng.random() < .7 else None
        x.H_pr, x.H_cn = Hp, rand_H(rng, .3); body = core.Body(x.name, mass=None if x.cloud is None else x.cloud.matrix())
        j = make_joint(x); args += [fr, j, core.SubFrame(body, x.H_cn)]; objs.append((x, body, j))
        Hp = rand_H(rng, .3); fr = core.SubFrame(body, Hp)
    nl = N.links[k]; x = mk(jt_last); nl.jt, nl.q, nl.v, nl.H_pr, nl.H_cn = jt_last, x.q, x.v, Hp, C
    nj = make_joint(nl); args += [fr, nj, f1]
    w.replace_joint(old, *args)
    # same tree for the reference, with the new links just before link k
    sh = lambda i: i if i < k else i + m
    out, R = [], Built(); R.world = w; R.bodies[-1] = w.ground
    for i, q in enumerate(N.links):
        q = q.copy()
        if i == k:
            for e, (x, body, j) in enumerate(objs):
                x.parent = l.parent if e == 0 else k + e - 1; x.parent = sh(x.parent) if e == 0 else x.parent
                out.append(x); R.bodies[k + e], R.joints[k + e] = body, j
                R.f0[k + e], R.f1[k + e] = args[3*e], args[3*e + 2]
            if m: q.parent = k + m - 1
        else: q.parent = -1 if q.parent < 0 else sh(q.parent)
        out.append(q); R.bodies[sh(i)], R.joints[sh(i)], R.f0[sh(i)], R.f1[sh(i)] = b.bodies[i], b.joints[i], b.f0[i], b.f1[i]
    R.joints[k + m], R.f0[k + m], R.f1[k + m] = nj, fr, f1
    for i, q in enumerate(out): q.sub0 = q.sub1 = True
    return Tree(out), R, nj

def replace(ctx, rng, i):
    tree = gen_tree(ctx, rng, 1, 7, branch=.5, p_massless=.1)
    b = build(tree, init=bool(i % 4)); w = b.world; T = tree
    if not i % 4: ctx.cls('uninitialised')
    lin = [k for k in range(len(tree.links)) if tree.links[k].jt in LINEAR]
    extras = i % 2 == 0 and i % 4
    if extras:
        w.register(ctl.WeightController())
    R = int(rng.integers(1, 4)); log = []; keep = None
    if extras and len(lin) > 1:
        keep = b.joints[lin[0]]; n = jndof(tree.links[lin[0]].jt); gains = (eye(n)*2, eye(n)*.3, rng.normal(size=n), zeros(n))
        w.register(ctl.ProportionalDerivativeController([keep], *gains)); w.init(); ctx.cls('pd')
    lim = None
    if extras and len(lin) > 1:
        lim = keep; n = jndof(tree.links[lin[0]].jt); L = (-ones(n)*20, ones(n)*20); w.register(cst.JointLimits(lim, *L)); w.init(); ctx.cls('constraint')
    want = None
    if i % 4 and rng.random() < .5:         # a link which the world does not know the dofs of yet
        n = len(T.links); q = int(rng.integers(-1, n)); jt = str(rng.choice(LINEAR)); x = Link('late', q, jt, rand_q(rng, jt), rng.normal(size=jndof(jt)), eye(4), eye(4), rand_cloud(rng), sub0=False, sub1=False); T = T.copy(); T.links.append(x); T.index()
        b.bodies[n] = core.Body('late', mass=x.cloud.matrix()); b.joints[n] = make_joint(x); w.add_link(b.bodies[q], b.joints[n], b.bodies[n]); b.f0[n], b.f1[n] = b.bodies[q], b.bodies[n]; want = jndof(jt); ctx.cls('late-link')
    elif rng.random() < .4 and i % 4: w.update_dynamic()
    for r in range(R):
        cand = [k for k in range(len(T.links)) if b.joints[k] is not keep]
        if not cand: raise Skip()
        k = int(rng.choice(cand)); size = None
        if want:        # often the same number of dofs in the end, at other places
            fit = [c for c in cand if b.joints[c].ndof - want in (0, 1, 2, 3, 6) and T.links[c].name != 'late']
            if fit and rng.random() < .8: k = int(rng.choice(fit)); size = b.joints[k].ndof - want; ctx.cls('same-total')
            want = None
        old = b.joints[k]
        others = [(j, j.gpos.copy(), j.gvel.copy(), j.frames, j.frame0.body, j.frame1.body) for j in w.iterjoints() if j is not old]
        po = (np.array(old.gpos), np.array(old.gvel))
        T, b, nj = replacement(ctx, rng, T, b, k, size); log.append((k, T.links[k].jt, len(T.links)))
        w = b.world
        for (j, q, v, fr, b0, b1) in others:
            ctx.ok(j.frames == fr and j in b0.childrenjoints and b1.parentjoint is j, 'untouched', 'frames of another joint')
            ctx.close(j.gpos, q, 'untouched', 'position of another joint', 0, 1.); ctx.close(j.gvel, v, 'untouched', 'velocity of another joint', 0, 1.)
        ctx.ok(old.frame0 is None and old.frame1 is None and not any(j is old for j in w.iterjoints()) and not any(old is j for x in w.iterbodies() for j in x.childrenjoints), 'released', 'the old joint is released')
        ctx.close(old.gpos, po[0], 'released', 'position of the old joint', 0, 1.)
        for q, l in enumerate(T.links):
            bj = b.joints[q]; ctx.ok(bj.frame1.body is b.bodies[q] and bj.frame0.body is b.bodies[l.parent] and b.bodies[q].parentjoint is bj and any(c is bj for c in b.bodies[l.parent].childrenjoints), 'parents', 'links of the tree')
    if R > 1: ctx.cls('repeated')
    ctx.note(replacements=log); ctx.sig(tuple(log))
    # no initialisation by the user from here
    order = list(w.iterjoints()); exp = [b.joints[q] for q in T.order]
    ctx.ok(len(order) == len(exp) and all(x is y for x, y in zip(order, exp)), 'same-order', 'joint order: %s instead of %s' % ([x.name for x in order], [x.name for x in exp]))
    ctx.ok(all(b.joints[q].dof.start == T.dof[q].start and b.joints[q].dof.stop == T.dof[q].stop for q in T.order) and w.ndof == T.ndof, 'same-dofs', 'dof indices')
    F = build(T)
    if extras: F.world.register(ctl.WeightController())
    if keep is not None:
        kk = [q for q in b.joints if b.joints[q] is keep][0]
        F.world.register(ctl.ProportionalDerivativeController([F.joints[kk]], *gains)); F.world.register(cst.JointLimits(F.joints[kk], *L))
    F.world.init()
    ctx.close(w.gvel, F.world.gvel, 'same-dofs', 'world velocity', 0, 1.)
    w.update_dynamic(); F.world.update_dynamic(); K = T.compute(); D = T.dynamics(K); s = 1 + np.abs(D['N']).max() if T.ndof else 1.
    for n_ in ('mass', 'viscosity', 'nleffects'):
        ctx.close(getattr(w, n_), getattr(F.world, n_), 'same-model', n_, 1e-12, s + np.abs(D['M']).max() if T.ndof else 1.)
    if T.ndof: ctx.close(w.mass, D['M'], 'same-model', 'mass against the reference', 1e-9)
    for q in b.bodies:
        ctx.close(b.bodies[q].pose, K['H'][q], 'same-poses', 'pose of %d' % q, 1e-11, kscale(T, K)); ctx.close(b.bodies[q].twist, K['T'][q], 'same-poses', 'twist of %d' % q, 1e-10, kscale(T, K)*(1 + np.abs(K['T'][q]).max()))
    try: well_posed(T, K, 1e6)
    except Skip: return
    for _ in range(3):
        step(w, 1e-3); step(F.world, 1e-3)
        if not np.abs(F.world.gvel).max(initial=0.) < 1e4: break # a diverging motion: rounding decides of the next steps
    for q in T.order: ctx.close(b.joints[q].gpos, F.joints[q].gpos, 'same-motion', 'position after three steps', 1e-9, 1 + np.abs(F.joints[q].gpos).max() if F.joints[q].gpos.size else 1.)
    ctx.close(w.gvel, F.world.gvel, 'same-motion', 'velocity after three steps', 1e-8)
    nb = core.Body('again', mass=rand_cloud(rng).matrix()); w.add_link(b.bodies[-1], old, nb); w.init(); w.update_dynamic()
    ctx.ok(nb.parentjoint is old and old.frame1 is nb, 'reusable', 'the old joint can be linked again')
    ctx.close(nb.pose, old.pose, 'reusable', 'pose of a body linked by the released joint', 1e-12, kscale(T, K) + np.abs(old.pose).max())

def refuse(ctx, rng, i):
    """Malformed replacements."""
    from rv.worlds import snap
    t = gen_tree(ctx, rng, 2, 6); b = build(t); w = b.world; w.update_dynamic(); k = int(rng.integers(len(t.links))); old = b.joints[k]; new = lambda: make_joint(t.links[k]); a = snap(w); o = [q for q in b.bodies if q not in (k, t.links[k].parent)]
    bad = [(), (b.f0[k], new()), (b.f0[k], new(), b.f1[k], new()), (b.f0[k], new(), core.Body('x'), core.Body('y'))]
    if o: q = int(rng.choice(o)); bad += [(b.bodies[q], new(), b.f1[k]), (b.f0[k], new(), b.bodies[q])]
    used = b.joints[int(rng.choice([q for q in b.joints if q != k]))]; mid, own = core.Body('mid'), core.SubFrame(b.bodies[k], rand_H(rng))
    bad += [(used,), (b.f0[k], used, b.f1[k]), (b.f0[k], new(), core.SubFrame(mid, rand_H(rng)), mid, used, b.f1[k]), (b.f0[k], new(), mid, mid, None, own), (b.f0[k], new(), mid, mid, new(), mid, mid, new(), own), (None,), (core.Body(),)]
    for x in bad: ctx.raises(Exception, lambda: w.replace_joint(old, *x), 'refused', 'arguments %s' % (x,)); ctx.ok(snap(w) == a and old.frame0 is b.f0[k] and old.frame1 is b.f1[k], 'refused', 'world changed by a refused replacement')
    ctx.ok(mid.parentjoint is None and not mid.childrenjoints and own not in w.getframes(), 'refused', 'something remains of a refused chain')
    n = new(); w.replace_joint(old, n); ctx.ok(b.bodies[k].parentjoint is n, 'refused', 'good replacement after refused ones'); ctx.sig(sig_tree(t), k)

FAMILIES = [('replace', replace, 160, 5000), ('refuse', refuse, 30, 600)]
