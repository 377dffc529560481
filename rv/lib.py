"""Imports the code under test from the repository's current working tree."""
import os
import sys

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
LIB = os.path.join(REPO, "stoqcompiler") + os.sep
sys.path.insert(0, REPO)

import stoqcompiler  # noqa: E402

if not os.path.realpath(stoqcompiler.__file__).startswith(LIB):
    print("inconclusive: stoqcompiler was imported from", stoqcompiler.__file__)
    sys.exit(2)

from stoqcompiler.unitary import (  # noqa: E402,F401
    Unitary, UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry,
    UnitaryDefinitions, ParameterizedUnitary, ParameterizedUnitaryParameter,
    ParameterizedUnitaryDefinitions)
from stoqcompiler.compiler import (  # noqa: E402,F401
    Compiler, CompilerAction, CompilerResult)
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm  # noqa: E402,F401
from stoqcompiler.verification import Verification  # noqa: E402,F401
