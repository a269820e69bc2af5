// A second translation unit that uses the same headers.
#include "ElementsKernel/Exception.h"
#include <functional>
#include "SOM/SOM.h"
#include "SOM/SOMProjector.h"
#include "SOM/SOMTrainer.h"
#include "SOM/UMatrix.h"
double other_unit() {
  Euclid::SOM::SOM<1> s(1, 2);
  s(0, 1)[0] = 3;
  return Euclid::SOM::computeUMatrix(s)(0, 0);
}
