#ifndef OTYPE
#define OTYPE PTYPE
#endif
typedef PTYPE pid_control_type_t;
typedef OTYPE pid_output_type_t;
