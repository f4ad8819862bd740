// Stand-in for the header of the FMI Library: the part of its interface for
// FMI 2.0 model exchange that a wrapper can reasonably use. The functions are
// implemented by the simulated FMU of the harness.
#ifndef FMISTUB_FMILIB_H
#define FMISTUB_FMILIB_H
#include <cstdarg>
#include <cstddef>

typedef char const* jm_string;
typedef void* jm_voidp;
enum jm_status_enu_t { jm_status_error = -1, jm_status_success = 0, jm_status_warning = 1 };
enum jm_log_level_enu_t {
    jm_log_level_nothing,
    jm_log_level_fatal,
    jm_log_level_error,
    jm_log_level_warning,
    jm_log_level_info,
    jm_log_level_verbose,
    jm_log_level_debug,
    jm_log_level_all
};
struct jm_callbacks;
typedef jm_voidp (*jm_malloc_f)(std::size_t);
typedef jm_voidp (*jm_calloc_f)(std::size_t, std::size_t);
typedef jm_voidp (*jm_realloc_f)(void*, std::size_t);
typedef void (*jm_free_f)(jm_voidp);
typedef void (*jm_logger_f)(jm_callbacks*, jm_string, jm_log_level_enu_t, jm_string);
#define JM_MAX_ERROR_MESSAGE_SIZE 2000
struct jm_callbacks {
    jm_malloc_f malloc;
    jm_calloc_f calloc;
    jm_realloc_f realloc;
    jm_free_f free;
    jm_logger_f logger;
    jm_log_level_enu_t log_level;
    jm_voidp context;
    char errMessageBuffer[JM_MAX_ERROR_MESSAGE_SIZE];
};
void jm_default_logger(jm_callbacks*, jm_string, jm_log_level_enu_t, jm_string);
jm_callbacks* jm_get_default_callbacks(void);

enum fmi_version_enu_t {
    fmi_version_unknown_enu = 0,
    fmi_version_1_enu,
    fmi_version_2_0_enu,
    fmi_version_3_0_enu,
    fmi_version_unsupported_enu
};
struct fmi_import_context_t;
fmi_import_context_t* fmi_import_allocate_context(jm_callbacks*);
void fmi_import_free_context(fmi_import_context_t*);
fmi_version_enu_t fmi_import_get_fmi_version(fmi_import_context_t*, char const* file, char const* dir);
char* fmi_import_mk_temp_dir(jm_callbacks*, char const* systemTempDir, char const* prefix);
jm_status_enu_t fmi_import_rmdir(jm_callbacks*, char const* dir);

typedef double fmi2_real_t;
typedef int fmi2_integer_t;
typedef int fmi2_boolean_t;
typedef char const* fmi2_string_t;
typedef unsigned int fmi2_value_reference_t;
#define fmi2_true 1
#define fmi2_false 0
enum fmi2_status_t {
    fmi2_status_ok,
    fmi2_status_warning,
    fmi2_status_discard,
    fmi2_status_error,
    fmi2_status_fatal,
    fmi2_status_pending
};
enum fmi2_type_t { fmi2_model_exchange, fmi2_cosimulation };
enum fmi2_fmu_kind_enu_t {
    fmi2_fmu_kind_unknown = 0,
    fmi2_fmu_kind_me = 1,
    fmi2_fmu_kind_cs = 2,
    fmi2_fmu_kind_me_and_cs = 3
};
enum fmi2_base_type_enu_t {
    fmi2_base_type_real,
    fmi2_base_type_int,
    fmi2_base_type_bool,
    fmi2_base_type_str,
    fmi2_base_type_enum
};
enum fmi2_variability_enu_t {
    fmi2_variability_enu_constant = 0,
    fmi2_variability_enu_fixed = 1,
    fmi2_variability_enu_tunable = 2,
    fmi2_variability_enu_discrete = 3,
    fmi2_variability_enu_continuous = 4,
    fmi2_variability_enu_unknown = 5
};
enum fmi2_causality_enu_t {
    fmi2_causality_enu_parameter = 0,
    fmi2_causality_enu_calculated_parameter = 1,
    fmi2_causality_enu_input = 2,
    fmi2_causality_enu_output = 3,
    fmi2_causality_enu_local = 4,
    fmi2_causality_enu_independent = 5,
    fmi2_causality_enu_unknown = 6
};
enum fmi2_capabilities_enu_t {
    fmi2_me_needsExecutionTool,
    fmi2_me_completedIntegratorStepNotNeeded,
    fmi2_me_canBeInstantiatedOnlyOncePerProcess,
    fmi2_me_canNotUseMemoryManagementFunctions,
    fmi2_me_canGetAndSetFMUstate,
    fmi2_me_canSerializeFMUstate,
    fmi2_me_providesDirectionalDerivatives,
    fmi2_me_completedEventIterationIsProvided
};
struct fmi2_event_info_t {
    fmi2_boolean_t newDiscreteStatesNeeded;
    fmi2_boolean_t terminateSimulation;
    fmi2_boolean_t nominalsOfContinuousStatesChanged;
    fmi2_boolean_t valuesOfContinuousStatesChanged;
    fmi2_boolean_t nextEventTimeDefined;
    fmi2_real_t nextEventTime;
};
struct fmi2_callback_functions_t;
struct fmi2_import_t;
struct fmi2_import_variable_t;
struct fmi2_import_variable_list_t;
struct fmi2_xml_callbacks_t;

fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t*, char const* dir, fmi2_xml_callbacks_t*);
void fmi2_import_free(fmi2_import_t*);
fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t*);
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t*, fmi2_fmu_kind_enu_t, fmi2_callback_functions_t const*);
void fmi2_import_destroy_dllfmu(fmi2_import_t*);
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t*, fmi2_string_t name, fmi2_type_t, fmi2_string_t resources,
                                        fmi2_boolean_t visible);
void fmi2_import_free_instance(fmi2_import_t*);
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t*, fmi2_boolean_t tolDefined, fmi2_real_t tol,
                                           fmi2_real_t start, fmi2_boolean_t stopDefined, fmi2_real_t stop);
fmi2_status_t fmi2_import_set_debug_logging(fmi2_import_t*, fmi2_boolean_t on, std::size_t n, fmi2_string_t categories[]);
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t*);
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t*);
fmi2_status_t fmi2_import_terminate(fmi2_import_t*);
fmi2_status_t fmi2_import_reset(fmi2_import_t*);
fmi2_status_t fmi2_import_enter_event_mode(fmi2_import_t*);
fmi2_status_t fmi2_import_enter_continuous_time_mode(fmi2_import_t*);
fmi2_status_t fmi2_import_new_discrete_states(fmi2_import_t*, fmi2_event_info_t*);
fmi2_status_t fmi2_import_set_time(fmi2_import_t*, fmi2_real_t);
fmi2_status_t fmi2_import_set_continuous_states(fmi2_import_t*, fmi2_real_t const x[], std::size_t n);
fmi2_status_t fmi2_import_get_continuous_states(fmi2_import_t*, fmi2_real_t x[], std::size_t n);
fmi2_status_t fmi2_import_get_nominals_of_continuous_states(fmi2_import_t*, fmi2_real_t x[], std::size_t n);
fmi2_status_t fmi2_import_get_derivatives(fmi2_import_t*, fmi2_real_t dx[], std::size_t n);
fmi2_status_t fmi2_import_get_event_indicators(fmi2_import_t*, fmi2_real_t z[], std::size_t n);
fmi2_status_t fmi2_import_completed_integrator_step(fmi2_import_t*, fmi2_boolean_t noSetFMUStatePrior,
                                                    fmi2_boolean_t* enterEventMode, fmi2_boolean_t* terminate);
fmi2_status_t fmi2_import_get_directional_derivative(fmi2_import_t*, fmi2_value_reference_t const v_ref[], std::size_t nv,
                                                     fmi2_value_reference_t const z_ref[], std::size_t nz,
                                                     fmi2_real_t const dv[], fmi2_real_t dz[]);
std::size_t fmi2_import_get_number_of_continuous_states(fmi2_import_t*);
std::size_t fmi2_import_get_number_of_event_indicators(fmi2_import_t*);
unsigned int fmi2_import_get_capability(fmi2_import_t*, fmi2_capabilities_enu_t);
fmi2_status_t fmi2_import_get_real(fmi2_import_t*, fmi2_value_reference_t const vr[], std::size_t n, fmi2_real_t v[]);
fmi2_status_t fmi2_import_get_integer(fmi2_import_t*, fmi2_value_reference_t const vr[], std::size_t n, fmi2_integer_t v[]);
fmi2_status_t fmi2_import_get_boolean(fmi2_import_t*, fmi2_value_reference_t const vr[], std::size_t n, fmi2_boolean_t v[]);
fmi2_status_t fmi2_import_set_real(fmi2_import_t*, fmi2_value_reference_t const vr[], std::size_t n, fmi2_real_t const v[]);
fmi2_status_t fmi2_import_set_integer(fmi2_import_t*, fmi2_value_reference_t const vr[], std::size_t n,
                                      fmi2_integer_t const v[]);
fmi2_status_t fmi2_import_set_boolean(fmi2_import_t*, fmi2_value_reference_t const vr[], std::size_t n,
                                      fmi2_boolean_t const v[]);
fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t*, int order);
void fmi2_import_free_variable_list(fmi2_import_variable_list_t*);
std::size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t*);
fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t*, std::size_t);
fmi2_import_variable_t* fmi2_import_get_variable_by_name(fmi2_import_t*, char const* name);
char const* fmi2_import_get_variable_name(fmi2_import_variable_t*);
fmi2_value_reference_t fmi2_import_get_variable_vr(fmi2_import_variable_t*);
fmi2_base_type_enu_t fmi2_import_get_variable_base_type(fmi2_import_variable_t*);
fmi2_variability_enu_t fmi2_import_get_variability(fmi2_import_variable_t*);
fmi2_causality_enu_t fmi2_import_get_causality(fmi2_import_variable_t*);
#endif
