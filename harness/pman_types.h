#if PTYPES
#undef PMAN_VIEW_NULL
#define VERIF_PMAN_VIEW_VOID
typedef void *pman_message_t;
typedef void *pman_event_t;
typedef void *pman_page_data_t;
typedef void *pman_model_t;
typedef void  pman_view_t;
#else
typedef int pman_message_t;
typedef int pman_event_t;
typedef int pman_page_data_t;
typedef int pman_model_t;
typedef int pman_view_t;
#endif
