"""What decides each property: specifications to model-check (mc), generators of
behaviours to replay (gen), harnesses to run and trace specifications to check
their recordings with (runs)."""


def r(harness, spec, shards=4, **kw):
    return dict(harness=harness, spec=spec, shards=shards, **kw)



PLAN = {
    'P01': dict(mc=[('MCFock',)], runs=[r('p01', 'TrFock', 4)]),
    'P02': dict(mc=[('MCFock',)], runs=[r('p02', 'TrFock', 4)]),
    'P03': dict(runs=[r('p03', 'TrFock', 4)]),
    'P04': dict(mc=[('MCHam',)], runs=[r('p04', 'TrHam', 8)]),
    'P05': dict(mc=[('MCHam',)], runs=[r('p05', 'TrHam', 8)]),
    'P06': dict(mc=[('MCHam',)], runs=[r('p06', 'TrHam', 8)]),
    'P08': dict(gen=[('MCSession', 'MCSession.cfg')], runs=[r('p08', 'TrSession', 8)]),
    'P09': dict(runs=[r('p09', 'TrSpace', 6)]),
    'P11': dict(gen=[('MCLife', 'MCLife.cfg')], mc=[('MCLife', 'MCLifeLoop.cfg')], runs=[r('p11', 'TrSpace', 6)]),
    'P16': dict(runs=[r('p16', 'TrSpace', 8)]),
    'P17': dict(runs=[r('p17', 'TrSpace', 8)]),
    'P18': dict(runs=[r('p18', 'TrSpace', 8)]),
    'P19': dict(runs=[r('p19', 'TrSpace', 6)]),
    'P20': dict(runs=[r('p20', 'TrSpace', 4)]),
    'P22': dict(runs=[r('p22', 'TrTunnel', 6)]),
    'P23': dict(runs=[r('p23', 'TrTunnel', 6)]),
    'P24': dict(runs=[r('p24', 'TrTunnel', 8)]),
    'P25': dict(runs=[r('p25', 'TrTunnel', 8)]),
    'P10': dict(runs=[r('p10', 'TrLinAlg', 4)]),
    'P12': dict(runs=[r('p12', 'TrLinAlg', 4)]),
    'P13': dict(runs=[r('p13', 'TrLinAlg', 4)]),
    'P14': dict(runs=[r('p14', 'TrLinAlg', 4)]),
    'P15': dict(runs=[r('p15', 'TrLinAlg', 4)]),
    'P21': dict(runs=[r('p21', 'TrThermal', 6)]),
    'P26': dict(runs=[r('p26', 'TrThermal', 8)]),
    'P28': dict(mc=[('MCTranspose',), ('MCTranspose', 'MCTranspose3.cfg')], runs=[r('p28', 'TrMpi', 6)]),
    'P29': dict(mc=[('MCLockstep',)], runs=[r('p29', 'TrMpi', 6)]),
    'P30': dict(build=['ext', 'backend'], runs=[r('p30', 'TrFit', 4)]),
    'P31': dict(build=['ext', 'backend'], runs=[r('p31', 'TrFit', 6)]),
    'P32': dict(mc=[('MCLine',)], build=['ext', 'backend'], runs=[r('p32', 'TrFit', 6)]),
    'P33': dict(build=['ext', 'backend'], runs=[r('p33', 'TrFit', 6)]),
    'P34': dict(gen=[('MCDmft', 'MCDmft.cfg')], runs=[r('p34', 'TrDmft', 8)]),
    'P38': dict(runs=[r('p38', 'TrDmft', 6)]),
    'P35': dict(runs=[r('p35', 'TrDmft', 8)]),
    'P36': dict(runs=[r('p36', 'TrLattice', 4)]),
    'P37': dict(runs=[r('p37', 'TrLattice', 8)]),
    'P39': dict(runs=[r('p39', 'TrDed', 4)]),
    'P40': dict(gen=[('MCDed', 'MCDed.cfg'), ('MCDed', 'MCDed2.cfg')], runs=[r('p40', 'TrDed', 8)]),
    'P42': dict(runs=[r('p42', 'TrDmft', 8)]),
    'P41': dict(runs=[r('p41', 'TrFigure', 4)]),
    'P27': dict(runs=[r('p27', 'TrLinAlg', 4)]),
    'P07': dict(mc=[('MCSparse',)], runs=[r('p07', 'TrSparse', 6)]),
}

NOTES = {'*': 'TLC checks the specification exhaustively within the stated constants, and decides every recorded behaviour of the '
              'real code against it in exact (fixed-point) arithmetic; beyond the constants and the recorded cases it is evidence, '
              'not proof. Trusted: TLC, spec/java (arithmetic), shim/numba (numba bodies run as Python).'}
