// Lists of shape types used by several checks.
#ifndef SHAPES_H
#define SHAPES_H

#include "array/image.h"
#include "array/matrix.h"
#include "nd.h"

namespace nd {

using nda::chunky_image_shape;
using nda::image_shape;
using nda::matrix_shape;
using nda::planar_image_shape;
using nda::vector_shape;

// A representative set of shapes of rank 0 to 3, with a mix of static and dynamic parameters.
using shapes_low = types<any_shape<1>, any_shape<2>, any_shape<3>, shape<>, dense_shape<1>, dense_shape<2>, dense_shape<3>,
    fixed_dense_shape<3, 4>, matrix_shape<>, matrix_shape<3, dynamic>, matrix_shape<2, 5>, chunky_image_shape<>,
    chunky_image_shape<3>, chunky_image_shape<3, 4>, planar_image_shape, shape<strided_dim<3>, dim<>>,
    shape<dim<-2, dynamic, -1>>, shape<dim<dynamic, 4, -5>, dim<1, dynamic, 1>>>;

// Shapes of rank 4 to 8.
using shapes_high = types<any_shape<4>, dense_shape<4>, any_shape<5>, any_shape<6>,
    shape<dim<>, dense_dim<0, 2>, dim<>, fixed_dim<3>>, fixed_dense_shape<2, 3, 2, 2>,
    any_shape<8>, shape<dim<>, fixed_dim<2>, dim<0, dynamic>, dense_dim<>, dim<>, dim<>, dim<dynamic, 1>>>;

}  // namespace nd

#endif
