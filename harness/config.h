/* config.h of a debug build on this platform, see configure.ac */
#define BIC_PROMPT "BIC> "
#define BUILD_LINUX 1
#define ENABLE_TREE_CHECKS 1
#define EXTRA_CPP_OPTS ""
#define HAVE_ALLOCA 1
#define HAVE_ALLOCA_H 1
#define HAVE_CXX11 1
#define HAVE_DLFCN_H 1
#define HAVE_FORK 1
#define HAVE_GETHOSTNAME 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIBDL 1
#define HAVE_LIBINTL_H 1
#define HAVE_LIBREADLINE 1
#define HAVE_MALLOC 1
#define HAVE_MALLOC_H 1
#define HAVE_MEMSET 1
#define HAVE_PTRDIFF_T 1
#define HAVE_READLINE_HISTORY 1
#define HAVE_READLINE_HISTORY_H 1
#define HAVE_READLINE_READLINE_H 1
#define HAVE_REALLOC 1
#define HAVE_STDDEF_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRDUP 1
#define HAVE_STRERROR 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_STRSTR 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define HAVE_VFORK 1
#define HAVE_WORKING_FORK 1
#define HAVE_WORKING_VFORK 1
#define HAVE__BOOL 1
#define LT_OBJDIR ".libs/"
#define PACKAGE "bic"
#define PACKAGE_BUGREPORT "dev@mattleach.net"
#define PACKAGE_NAME "bic"
#define PACKAGE_STRING "bic v1.0.0"
#define PACKAGE_TARNAME "bic"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "v1.0.0"
#define STDC_HEADERS 1
#define VERSION "v1.0.0"
#define YYTEXT_POINTER 1
