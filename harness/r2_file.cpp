// Scene files and the command line program of the 2D rigid body simulator
#include "r2_trait.h"

namespace
{
#ifdef USE_PYTHON
SCRIPT_CHECKS( R2, "rigidbody2d" )
#else
SCENE_CHECKS( R2, "rigidbody2d" )
#endif
}
