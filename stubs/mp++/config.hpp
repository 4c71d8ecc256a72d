// Minimal stand-in for mp++'s config header (mp++ is not installed in the sandbox).
#ifndef VERIF_STUB_MPPP_CONFIG_HPP
#define VERIF_STUB_MPPP_CONFIG_HPP
#if defined(__SIZEOF_INT128__)
#define MPPP_HAVE_GCC_INT128
#endif
#define MPPP_VERSION_MAJOR 1
#define MPPP_VERSION_MINOR 0
#endif
