// Do the headers compile at all?
#include "array/array.h"
#include "array/ein_reduce.h"
#include "array/image.h"
#include "array/matrix.h"
#include "array/z_order.h"
nda::dense_array<int, 2> smoke_a({3, 4});
int main() {
  nda::fill(smoke_a, 1);
  return smoke_a(0, 0) == 1 ? 0 : 1;
}
