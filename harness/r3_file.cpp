// Scene files and the command line program of the 3D rigid body simulator
#include "r3_trait.h"

namespace
{
#ifdef USE_PYTHON
SCRIPT_CHECKS( R3, "rigidbody3d" )
#else
SCENE_CHECKS( R3, "rigidbody3d" )
#endif
}
