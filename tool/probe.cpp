// Instantiates the array templates so that all their members are analysed, used or not (never run).
#include "DataArray1D.h"
#include "DataArray2D.h"
#include "DataArray3D.h"
#include "DataArray4D.h"
#include "DataStruct.h"
#include "DataContainer.h"
#define ALL(T) template class DataArray1D<T>; template class DataArray2D<T>; template class DataArray3D<T>; template class DataArray4D<T>; template class DataStruct<T>;
ALL(double)
ALL(int)
ALL(char)
template struct Subscript<DataArray2D<double>, 1, 2>;
template struct Subscript<DataArray2D<double> const, 1, 2>;
template struct Subscript<DataArray3D<double>, 1, 3>;
template struct Subscript<DataArray3D<double> const, 1, 3>;
template struct Subscript<DataArray3D<double>, 2, 3>;
template struct Subscript<DataArray3D<double> const, 2, 3>;
template struct Subscript<DataArray4D<double>, 1, 4>;
template struct Subscript<DataArray4D<double> const, 1, 4>;
template struct Subscript<DataArray4D<double>, 2, 4>;
template struct Subscript<DataArray4D<double> const, 2, 4>;
template struct Subscript<DataArray4D<double>, 3, 4>;
template struct Subscript<DataArray4D<double> const, 3, 4>;
