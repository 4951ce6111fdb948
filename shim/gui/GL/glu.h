#include <GL/gl.h>
