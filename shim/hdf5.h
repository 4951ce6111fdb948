/* Stand-in for the subset of the HDF5 C API that scisim uses (HDF5 is not installable here).
   Same call semantics; files are written in a private format on H5Fclose. */
#ifndef SHIM_HDF5_H
#define SHIM_HDF5_H
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <stdexcept>
#include <vector>

typedef int64_t hid_t;
typedef int herr_t;
typedef int htri_t;
typedef unsigned long long hsize_t;

#define HOFFSET( S, M ) ( offsetof( S, M ) )
enum : hid_t { H5T_NATIVE_DOUBLE = 11, H5T_NATIVE_FLOAT = 12, H5T_NATIVE_INT = 13, H5T_NATIVE_UINT = 14, H5T_NATIVE_LONG = 15, H5T_C_S1 = 16, H5T_FORTRAN_S1 = 17 };
enum H5T_class_t { H5T_COMPOUND = 6 };
enum H5S_seloper_t { H5S_SELECT_SET = 0 };
#define H5T_VARIABLE ( (size_t) ( -1 ) )
enum : hid_t { H5P_DEFAULT = 0, H5S_ALL = 0 };
#define H5F_ACC_RDONLY ( 0u )
#define H5F_ACC_TRUNC ( 2u )

hid_t H5Fcreate( const char* name, unsigned flags, hid_t, hid_t );
hid_t H5Fopen( const char* name, unsigned flags, hid_t );
herr_t H5Fclose( hid_t id );
hid_t H5Gopen2( hid_t loc, const char* name, hid_t );
hid_t H5Gcreate2( hid_t loc, const char* name, hid_t, hid_t, hid_t );
herr_t H5Gclose( hid_t id );
htri_t H5Lexists( hid_t loc, const char* name, hid_t );
hid_t H5Screate_simple( int rank, const hsize_t* dims, const hsize_t* maxdims );
herr_t H5Sclose( hid_t id );
int H5Sget_simple_extent_ndims( hid_t id );
int H5Sget_simple_extent_dims( hid_t id, hsize_t* dims, hsize_t* maxdims );
herr_t H5Sselect_hyperslab( hid_t id, H5S_seloper_t op, const hsize_t* start, const hsize_t* stride, const hsize_t* count, const hsize_t* block );
hid_t H5Tcopy( hid_t id );
hid_t H5Tcreate( H5T_class_t cls, size_t size );
hid_t H5Tarray_create2( hid_t base, unsigned rank, const hsize_t* dims );
herr_t H5Tinsert( hid_t parent, const char* name, size_t offset, hid_t member );
herr_t H5Tset_size( hid_t id, size_t size );
htri_t H5Tequal( hid_t a, hid_t b );
herr_t H5Tclose( hid_t id );
hid_t H5Dcreate2( hid_t loc, const char* name, hid_t type, hid_t space, hid_t, hid_t, hid_t );
hid_t H5Dopen2( hid_t loc, const char* name, hid_t );
hid_t H5Dget_type( hid_t id );
hid_t H5Dget_space( hid_t id );
herr_t H5Dwrite( hid_t id, hid_t memtype, hid_t memspace, hid_t filespace, hid_t, const void* buf );
herr_t H5Dread( hid_t id, hid_t memtype, hid_t memspace, hid_t filespace, hid_t, void* buf );
herr_t H5Dclose( hid_t id );
#endif
