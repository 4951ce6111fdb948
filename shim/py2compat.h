// The repository embeds Python 2; only Python 3 is installed here. The four entry points whose names or
// signatures changed between the two are given their Python 2 form. Included before every source file of the
// builds with USE_PYTHON.
#ifndef PY2COMPAT_H
#define PY2COMPAT_H
#include <Python.h>
#include <cstdlib>
#include <cstring>
#include <string>

namespace py2compat
{
  // Python 2 registers a module of functions in one call
  inline PyObject* initModule( const char* name, PyMethodDef* methods )
  {
    static PyModuleDef def; // one module per program
    std::memset( &def, 0, sizeof( def ) );
    PyModuleDef_Base base = PyModuleDef_HEAD_INIT;
    def.m_base = base;
    def.m_name = name;
    def.m_size = -1;
    def.m_methods = methods;
    PyObject* m = PyModule_Create( &def );
    if( m == nullptr ) { PyErr_Print(); std::exit( 77 ); }
    PyDict_SetItemString( PyImport_GetModuleDict(), name, m );
    return m;
  }
}
#define Py_InitModule( name, methods ) py2compat::initModule( name, methods )
// Takes wide characters in Python 3; irrelevant to embedding
#define Py_SetProgramName( x ) ( (void) ( x ) )
#endif
