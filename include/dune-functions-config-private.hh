
#ifndef DUNE_FUNCTIONS_CONFIG_PRIVATE_HH
#define DUNE_FUNCTIONS_CONFIG_PRIVATE_HH


/* Name of package */
#define PACKAGE "dune-functions"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "dune-functions@lists.dune-project.org"

/* Define to the full name of this package. */
#define PACKAGE_NAME "dune-functions"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "dune-functions 2.12-git"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "dune-functions"

/* Define to the home page for this package. */
#define PACKAGE_URL ""

/* Define to the version of this package. */
#define PACKAGE_VERSION "2.12-git"



#include <dune-functions-config.hh>

#endif // DUNE_FUNCTIONS_CONFIG_PRIVATE_HH
