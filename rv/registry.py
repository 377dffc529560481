"""All properties by id."""
from . import checks_compiler, checks_hamiltonian, checks_misc, checks_sequence, checks_unitary

PROPERTIES = {}
for _m in (checks_unitary, checks_sequence, checks_compiler, checks_hamiltonian, checks_misc):
    PROPERTIES.update(_m.PROPERTIES)

# Quick case counts are multiplied by these (sized to roughly 20-60 s per check on 8 cores).
QUICK_SCALE = dict(C01=10, C02=16, C03=10, C04=8, C05=16, C06=12, C07=8, C08=12, C09=10, C10=5, C11=4, C12=5, C13=2, C14=4,
                   C15=6, C16=8, C17=2, C18=5, C19=12, C20=1.2, C21=16)
for _p, _s in QUICK_SCALE.items():
    for _w in PROPERTIES[_p]["workloads"]:
        _w.quick = int(round(_w.quick * _s))
        _w.thorough = max(_w.thorough, 4 * _w.quick)
