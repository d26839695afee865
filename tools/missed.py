""" planted bugs which were missed at first, continued (read by seedtable.py) """
MISSED.update({
    'p25-close-planes': 'almost parallel constraints',
    'p38-old-sample': 'training on a second dataset without clear',
    'p21-kept-after-invalid': 'a stubborn learner whose refits are often rejected; every call has to return a point',
    'p33-old-phase': 'sessions which reach the full factorization early',
    'p33-threshold': 'a prune threshold of 0.9 and all-zero starts of the refining phase',
    'p34-training-points': 'subspaces positive only on labeled points',
    'p32-power': 'several users sharing moderate subspaces',
    'p32-group-share': 'relevant attributes which are members of groups',
    'p27-persist': 'three subspaces, and names of all DSM modes',
    'p27-three-greedy': 'three subspaces in the greedy swapping search',
    'p37-small-jitter': 'the jitter argument of the kernel transformer',
    'p30-square-start': 'as many subspaces as attributes',
})
MISSED.update({
    'p22-default-tol': 'tolerances other than the default',
    'p39-remembered': 'probabilities asked before another training without clear',
    'p35-warm-start': 'loose tolerances, compared with a new learner',
})
