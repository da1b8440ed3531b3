#pragma once
#include <cstddef>
#include <cstdint>
typedef std::int64_t hid_t;
typedef int herr_t;
typedef int htri_t;
typedef unsigned long long hsize_t;
typedef long long hssize_t;
typedef enum H5S_class_t { H5S_NO_CLASS = -1, H5S_SCALAR = 0, H5S_SIMPLE = 1, H5S_NULL = 2 } H5S_class_t;
typedef enum H5T_cset_t { H5T_CSET_ERROR = -1, H5T_CSET_ASCII = 0, H5T_CSET_UTF8 = 1 } H5T_cset_t;
typedef enum H5T_str_t { H5T_STR_NULLTERM = 0, H5T_STR_NULLPAD = 1, H5T_STR_SPACEPAD = 2 } H5T_str_t;
#define H5P_DEFAULT ((hid_t)0)
#define H5S_ALL ((hid_t)0)
#define H5I_INVALID_HID ((hid_t)-1)
#define H5F_ACC_RDONLY 0x0000u
#define H5F_ACC_RDWR 0x0001u
#define H5F_ACC_TRUNC 0x0002u
#define H5F_ACC_EXCL 0x0004u
#define H5T_C_S1 ((hid_t)9001)
#define H5T_NATIVE_INT ((hid_t)9002)
#define H5T_NATIVE_DOUBLE ((hid_t)9003)
#define H5T_VARIABLE ((std::size_t)-1)
extern "C" {
hid_t H5Fopen(char const*, unsigned, hid_t);
hid_t H5Fcreate(char const*, unsigned, hid_t, hid_t);
herr_t H5Fclose(hid_t);
herr_t H5Fflush(hid_t, int);
hid_t H5Dopen2(hid_t, char const*, hid_t);
herr_t H5Dclose(hid_t);
hid_t H5Dget_space(hid_t);
hid_t H5Dget_type(hid_t);
herr_t H5Dread(hid_t, hid_t, hid_t, hid_t, hid_t, void*);
hid_t H5Screate(H5S_class_t);
hid_t H5Screate_simple(int, hsize_t const*, hsize_t const*);
herr_t H5Sclose(hid_t);
int H5Sget_simple_extent_ndims(hid_t);
int H5Sget_simple_extent_dims(hid_t, hsize_t*, hsize_t*);
hssize_t H5Sget_simple_extent_npoints(hid_t);
hid_t H5Tcopy(hid_t);
herr_t H5Tset_size(hid_t, std::size_t);
herr_t H5Tset_cset(hid_t, H5T_cset_t);
herr_t H5Tset_strpad(hid_t, H5T_str_t);
herr_t H5Tclose(hid_t);
hid_t H5Acreate2(hid_t, char const*, hid_t, hid_t, hid_t, hid_t);
herr_t H5Awrite(hid_t, hid_t, void const*);
herr_t H5Aclose(hid_t);
htri_t H5Aexists(hid_t, char const*);
htri_t H5Lexists(hid_t, char const*, hid_t);
}
#define H5Dopen H5Dopen2
#define H5Acreate H5Acreate2
