
#ifndef ROTOR_FLTK_API_H
#define ROTOR_FLTK_API_H

#ifdef ROTOR_FLTK_STATIC_DEFINE
#  define ROTOR_FLTK_API
#  define ROTOR_FLTK_NO_EXPORT
#else
#  ifndef ROTOR_FLTK_API
#    ifdef rotor_fltk_EXPORTS
        /* We are building this library */
#      define ROTOR_FLTK_API 
#    else
        /* We are using this library */
#      define ROTOR_FLTK_API 
#    endif
#  endif

#  ifndef ROTOR_FLTK_NO_EXPORT
#    define ROTOR_FLTK_NO_EXPORT 
#  endif
#endif

#ifndef ROTOR_FLTK_DEPRECATED
#  define ROTOR_FLTK_DEPRECATED __attribute__ ((__deprecated__))
#endif

#ifndef ROTOR_FLTK_DEPRECATED_EXPORT
#  define ROTOR_FLTK_DEPRECATED_EXPORT ROTOR_FLTK_API ROTOR_FLTK_DEPRECATED
#endif

#ifndef ROTOR_FLTK_DEPRECATED_NO_EXPORT
#  define ROTOR_FLTK_DEPRECATED_NO_EXPORT ROTOR_FLTK_NO_EXPORT ROTOR_FLTK_DEPRECATED
#endif

#if 0 /* DEFINE_NO_DEPRECATED */
#  ifndef ROTOR_FLTK_NO_DEPRECATED
#    define ROTOR_FLTK_NO_DEPRECATED
#  endif
#endif

#endif /* ROTOR_FLTK_API_H */
