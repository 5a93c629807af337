#pragma once
#define flecsi_register_mpi_task(task, ns)
#define flecsi_execute_mpi_task(task, ns, ...) task(__VA_ARGS__)
namespace flecsi { namespace execution {
struct context_t { static context_t & instance(){ static context_t c; return c; } int initialize(int, char**){ return 0; } };
} }
