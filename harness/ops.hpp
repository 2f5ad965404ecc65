// the operators that assemble terms
#pragma once
#include "reg.hpp"
#include "src/finiteVolume/cellCentred/operators/sourceTerm.cpp"
#include "src/finiteVolume/cellCentred/operators/ddtOperator.cpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp"
