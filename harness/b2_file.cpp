// Scene files and the command line program of the ball simulator
#include "b2_trait.h"

namespace
{
#ifdef USE_PYTHON
SCRIPT_CHECKS( B2, "ball2d" )
#else
SCENE_CHECKS( B2, "ball2d" )
#endif
}
