#include <urdf_model/joint.h>
