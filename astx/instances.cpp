// function templates of the library that its own sources do not instantiate
#include "DynamicObstacleAvoidance/Utils/MathTools.hpp"
template int DynamicObstacleAvoidance::MathTools::sign<double>(double);
template int DynamicObstacleAvoidance::MathTools::sign<int>(int);
