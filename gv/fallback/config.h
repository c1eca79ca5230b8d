/* config.h.  Generated from config.h.in by configure.  */
/* config.h.in.  Generated from configure.ac by autoheader.  */

/* Enable debugging information gathering code for putative speed gain */
#define GYOTO_DEBUG_ENABLED 1

/* Define to 1 if Boost.odeintis available */
#define GYOTO_HAVE_BOOST_INTEGRATORS 1

/* Suffix for Gyoto plug-ins */
#define GYOTO_PLUGIN_SFX "so"

/* Define to 1 if size_t and unsigned long are the same */
#define GYOTO_SIZE__T_IS_UNSIGNED_LONG 1

/* Gyoto ABI version */
#define GYOTO_SOVERS "9-unreleased"

/* Define to 1 if you have aeae */
/* #undef GYOTO_USE_AEAE */

/* Define to 1 if you have arblib */
/* #undef GYOTO_USE_ARBLIB */

/* Define to 1 if you have cfitsio */
#define GYOTO_USE_CFITSIO 1

/* Define to 1 if you have eigen */
#define GYOTO_USE_EIGEN 1

/* Define to 1 if you have flint */
#define GYOTO_USE_FLINT 1

/* Define to 1 if you have udunits */
#define GYOTO_USE_UDUNITS 1

/* Define to 1 if you have xerces */
#define GYOTO_USE_XERCES 1

/* Defined if the requested minimum BOOST version is satisfied */
#define HAVE_BOOST 1

/* Define to 1 if you have <boost/array.hpp> */
#define HAVE_BOOST_ARRAY_HPP 1

/* Define to 1 if you have <boost/math/special_functions/ellint_1.hpp> */
#define HAVE_BOOST_MATH_SPECIAL_FUNCTIONS_ELLINT_1_HPP 1

/* Define to 1 if you have <boost/mpi/environment.hpp> */
#define HAVE_BOOST_MPI_ENVIRONMENT_HPP 1

/* Define to 1 if you have <boost/multiprecision/cpp_dec_float.hpp> */
#define HAVE_BOOST_MULTIPRECISION_CPP_DEC_FLOAT_HPP 1

/* Define to 1 if you have
   <boost/numeric/odeint/stepper/controlled_step_result.hpp> */
#define HAVE_BOOST_NUMERIC_ODEINT_STEPPER_CONTROLLED_STEP_RESULT_HPP 1

/* Define to 1 if you have <boost/serialization/base_object.hpp> */
#define HAVE_BOOST_SERIALIZATION_BASE_OBJECT_HPP 1

/* define if the compiler supports basic C++17 syntax */
#define HAVE_CXX17 1

/* Define to 1 if you have the <dlfcn.h> header file. */
#define HAVE_DLFCN_H 1

/* Define to 1 to use fenv.h. */
#define HAVE_FENV_H 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* Define to 1 if you have the 'dl' library (-ldl). */
#define HAVE_LIBDL 1

/* Define to 1 if you have MPI */
#define HAVE_MPI 1

/* Define if you have POSIX threads libraries and header files. */
#define HAVE_PTHREAD 1

/* Have PTHREAD_PRIO_INHERIT. */
#define HAVE_PTHREAD_PRIO_INHERIT 1

/* Define to 1 if you have the 'sincos' function. */
#define HAVE_SINCOS 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to 1 if the system has the type '_Bool'. */
/* #undef HAVE__BOOL */

/* Define to the sub-directory where libtool stores uninstalled libraries. */
#define LT_OBJDIR ".libs/"

/* Name of package */
#define PACKAGE "gyoto"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "gyoto@sympa.obspm.fr"

/* Define to the full name of this package. */
#define PACKAGE_NAME "Gyoto"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "Gyoto 2.0.2"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "gyoto"

/* Define to the home page for this package. */
#define PACKAGE_URL ""

/* Define to the version of this package. */
#define PACKAGE_VERSION "2.0.2"

/* Define to necessary symbol if this constant uses a non-standard name on
   your system. */
/* #undef PTHREAD_CREATE_JOINABLE */

/* Define to 1 if all of the C89 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1

/* Version number of package */
#define VERSION "2.0.2"

/* Define as 'unsigned int' if <stddef.h> doesn't define. */
/* #undef size_t */
