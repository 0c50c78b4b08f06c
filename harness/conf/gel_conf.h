/* Configuration of the library for the harnesses; every value can be overridden with -D. */
#ifndef VERIF_GEL_CONF_H
#define VERIF_GEL_CONF_H
#ifdef VERIF_EXTRA_CONF
#include VERIF_EXTRA_CONF
#endif
#ifndef GEL_PARAMETER_MAX_SIZE
#define GEL_PARAMETER_MAX_SIZE 8
#endif
#ifndef PMAN_NAVIGATION_DEPTH
#define PMAN_NAVIGATION_DEPTH 5
#endif
#ifdef VERIF_PMAN_VIEW_VOID
#define PMAN_VIEW_NULL
#define PMAN_DATA_NULL NULL
#else
#define PMAN_VIEW_NULL 0
#define PMAN_DATA_NULL 0
#endif
#ifndef VERIF_PMAN_TYPES
typedef int pman_message_t;
typedef int pman_event_t;
typedef int pman_page_data_t;
typedef int pman_model_t;
typedef int pman_view_t;
#endif
#ifndef VERIF_PID_TYPES
typedef int pid_control_type_t;
typedef int pid_output_type_t;
#endif
#ifndef GEL_PID_INTEGRAL_HISTORY_SIZE
#define GEL_PID_INTEGRAL_HISTORY_SIZE 200
#endif
#ifndef GEL_PID_DERIVATIVE_DELTA
#define GEL_PID_DERIVATIVE_DELTA 5
#endif
#ifndef GEL_MALLOC_AVAILABLE
#define GEL_MALLOC_AVAILABLE 0
#endif
#ifndef GEL_STATIC_BLOCK_SIZE
#define GEL_STATIC_BLOCK_SIZE 80
#endif
#ifndef WL_BLOCK_SIZE
#define WL_BLOCK_SIZE 4
#endif
#ifndef VERIF_PARAMETER_USER
typedef int parameter_user_data_t;
#endif
#endif
