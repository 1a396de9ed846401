"""Which tests decide which property, and how many cases they get per shard."""


def P(test, quick, thorough, name=None, **kw):
    return dict(name=name or test, mod='props', test=test, quick=quick, thorough=thorough, **kw)


def I(test, quick, thorough, name=None, mod='inpkg', **kw):
    """In-package tests through an overlay. They use names that the library's
    own tests use; should a name be gone, the part is left out."""
    return dict(name=name or test, mod=mod, test=test, quick=quick, thorough=thorough, optional=True, **kw)


CHECKS = {
    'C01': dict(parts=[P('TestC01Agreement', 60, 800), P('TestC01Big', 2, 30)]),
    'C02': dict(parts=[P('TestC02Output', 70, 1200), P('TestC02Big', 3, 40)]),
    'C03': dict(parts=[P('TestC03Commits', 150, 2500), P('TestC03Big', 3, 40)]),
    'C04': dict(parts=[P('TestC04Join', 120, 2000), P('TestC04Big', 3, 40)]),
    'C05': dict(parts=[P('TestC05Forgery', 150, 2500), P('TestC05Strangers', 150, 2000)]),
    'C06': dict(parts=[P('TestC06', 100, 1500)]),
    'C07': dict(parts=[P('TestC07Bytes', 250, 4000), P('TestC07Insider', 150, 3000), P('TestC07Inviter', 150, 3000), P('TestC07KeyPackages', 150, 3000)]),
    'C08': dict(parts=[P('TestC08Packages', 400, 8000), P('TestC08Messages', 100, 2000), P('TestC08Joining', 100, 2000), I('TestVfCodec', 400, 8000)]),
    'C09': dict(parts=[P('TestC09Lists', 80, 1500), P('TestC09Paths', 80, 1500)]),
    'C10': dict(parts=[P('TestC10Intruders', 100, 1500), P('TestC10Return', 60, 1000)]),
    'C11': dict(parts=[P('TestC11Welcome', 350, 3500), P('TestC11History', 60, 1000)]),
    'C12': dict(parts=[P('TestC12', 100, 1500)]),
    'C13': dict(parts=[P('TestC13Siblings', 80, 1500), P('TestC13Epochs', 70, 1200), P('TestC13Senders', 120, 2500), P('TestC13Headers', 100, 2000)]),
    'C14': dict(parts=[P('TestC14Keys', 150, 2500), P('TestC14Groups', 150, 2500), P('TestC14Leaks', 100, 1500), P('TestC14Many', 12, 150)]),
    'C15': dict(parts=[P('TestC15', 250, 3000), I('TestVfCrypto', 1000, 12000)]),
    'C16': dict(parts=[P('TestC16', 100, 1200), I('TestVfMath', 600, 4000, mod='inmath'), I('TestVfMath2', 600, 4000, mod='inmath2')]),
    'C17': dict(parts=[P('TestC17', 100, 1500), I('TestVfTree', 800, 8000, mod='intree'), I('TestVfPaths', 600, 5000, mod='intree2')]),
    'C18': dict(parts=[P('TestC18', 100, 1500), P('TestC18Big', 3, 40)]),
    'C19': dict(parts=[P('TestC19', 120, 2000)]),
    'C20': dict(parts=[P('TestC20', 120, 2000), P('TestC20Big', 3, 40)]),
    'C21': dict(parts=[P('TestC21', 120, 2000), P('TestC21Equal', 500, 5000), P('TestC21Big', 3, 40)]),
    'C22': dict(parts=[P('TestC22', 300, 4000)]),
    'C23': dict(parts=[P('TestC23Twins', 50, 1200), P('TestC23Siblings', 80, 1500), P('TestC23Race', 30, 800, race=True, maxprocs=4)]),
    'C24': dict(parts=[P('TestC24', 120, 2000)]),
}
