// Small functions that break (bad) or respect (good) each rule on purpose.
// Every run analyses them with the library; a rule that misses its bad twin,
// or reports a good one, makes the check fail as broken.
#include <cfenv>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <ctime>

#include "ska-sdp-func/utility/sdp_logging.h"
#include "ska-sdp-func/utility/sdp_mem.h"
#include "ska-sdp-func/utility/sdp_thread_support.h"

#define ST extern "C" void
#define SAME(A, B) if (sdp_mem_type(A) != sdp_mem_type(B) || \
    sdp_mem_location(A) != sdp_mem_location(B)) *status = SDP_ERR_INVALID_ARGUMENT

ST sdp_st_bad_entry(sdp_Mem* out, sdp_Error* status)
{
    sdp_mem_check_writeable(out, status);
    ((double*) sdp_mem_data(out))[0] = 1.0;
}

ST sdp_st_bad_status_load(const sdp_Mem* in, sdp_Mem* out, sdp_Error* status)
{
    if (*status) return;
    sdp_mem_check_location(in, SDP_MEM_CPU, status);
    sdp_mem_check_type(in, SDP_MEM_DOUBLE, status);
    SAME(in, out);
    sdp_mem_check_writeable(out, status);
    const double x = ((const double*) sdp_mem_data_const(in))[0];
    if (*status) return;
    ((double*) sdp_mem_data(out))[0] = x;
}

ST sdp_st_bad_type(const sdp_Mem* in, sdp_Mem* out, sdp_Error* status)
{
    if (*status) return;
    if (sdp_mem_location(in) != SDP_MEM_CPU || sdp_mem_location(out) != SDP_MEM_CPU
        || sdp_mem_is_read_only(out))
    {
        *status = SDP_ERR_MEM_LOCATION;
        return;
    }
    if (sdp_mem_type(in) == SDP_MEM_FLOAT)
    {
        ((double*) sdp_mem_data(out))[0] = ((const float*) sdp_mem_data_const(in))[0];
    }
    else
    {
        *status = SDP_ERR_DATA_TYPE;
    }
}

ST sdp_st_bad_location(sdp_Mem* out, sdp_Error* status)
{
    if (*status) return;
    if (sdp_mem_type(out) != SDP_MEM_DOUBLE || sdp_mem_is_read_only(out))
    {
        *status = SDP_ERR_DATA_TYPE;
        return;
    }
    ((double*) sdp_mem_data(out))[0] = 1.0;
}

ST sdp_st_bad_readonly(sdp_Mem* out, sdp_Error* status)
{
    if (*status) return;
    if (sdp_mem_type(out) != SDP_MEM_DOUBLE || sdp_mem_location(out) != SDP_MEM_CPU)
    {
        *status = SDP_ERR_DATA_TYPE;
        return;
    }
    ((double*) sdp_mem_data(out))[0] = 1.0;
}

ST sdp_st_bad_input(const sdp_Mem* in, sdp_Error* status)
{
    if (*status) return;
    if (sdp_mem_type(in) != SDP_MEM_DOUBLE || sdp_mem_location(in) != SDP_MEM_CPU
        || sdp_mem_is_read_only(in))
    {
        *status = SDP_ERR_DATA_TYPE;
        return;
    }
    ((double*) sdp_mem_data((sdp_Mem*) in))[0] = 1.0;
}

ST sdp_st_bad_silent(const sdp_Mem* in, sdp_Mem* out, sdp_Error* status)
{
    if (*status) return;
    sdp_mem_check_writeable(out, status);
    sdp_mem_check_location(in, SDP_MEM_CPU, status);
    SAME(in, out);
    if (*status) return;
    if (sdp_mem_type(in) == SDP_MEM_DOUBLE)
    {
        ((double*) sdp_mem_data(out))[0] = ((const double*) sdp_mem_data_const(in))[0];
    }
    else if (sdp_mem_type(in) == SDP_MEM_FLOAT)
    {
        ((float*) sdp_mem_data(out))[0] = ((const float*) sdp_mem_data_const(in))[0];
    }
}

ST sdp_st_bad_cleared(sdp_Mem* out, sdp_Error* status)
{
    if (*status) return;
    sdp_mem_set_value(out, 0, status);
    if (*status) *status = SDP_SUCCESS;
}

ST sdp_st_bad_dropped(sdp_Mem* out, sdp_Error* status)
{
    if (*status) return;
    sdp_Error mine = SDP_SUCCESS;
    sdp_mem_set_value(out, 0, &mine);
}

ST sdp_st_bad_leak(sdp_Mem* out, sdp_Error* status)
{
    if (*status) return;
    sdp_Mem* tmp = sdp_mem_create_copy(out, SDP_MEM_CPU, status);
    if (*status) return;
    sdp_mem_copy_contents(out, tmp, 0, 0, sdp_mem_num_elements(tmp), status);
    sdp_mem_free(tmp);
}

ST sdp_st_bad_twice(sdp_Mem* out, sdp_Error* status)
{
    if (*status) return;
    sdp_Mem* tmp = sdp_mem_create_copy(out, SDP_MEM_CPU, status);
    sdp_mem_free(tmp);
    sdp_mem_free(tmp);
}

ST sdp_st_bad_after(sdp_Mem* out, sdp_Error* status)
{
    if (*status) return;
    sdp_Mem* tmp = sdp_mem_create_copy(out, SDP_MEM_CPU, status);
    sdp_mem_free(tmp);
    sdp_mem_copy_contents(out, tmp, 0, 0, 1, status);
}

ST sdp_st_bad_stride(sdp_Mem* out, sdp_Error* status)
{
    if (*status) return;
    sdp_mem_check_writeable(out, status);
    sdp_mem_check_location(out, SDP_MEM_CPU, status);
    sdp_mem_check_type(out, SDP_MEM_DOUBLE, status);
    if (*status) return;
    const int64_t n = sdp_mem_shape_dim(out, 0);
    for (int64_t i = 0; i < n; ++i) ((double*) sdp_mem_data(out))[i] = 1.0;
}

struct sdp_StPlan
{
    sdp_Mem* kept;
    sdp_Mem* lost;
};

ST sdp_st_plan_free(sdp_StPlan* plan)
{
    if (!plan) return;
    sdp_mem_free(plan->kept);
    free(plan);
}

extern "C" sdp_StPlan* sdp_st_bad_plan(const sdp_Mem* in, sdp_Error* status)
{
    if (*status) return 0;
    sdp_StPlan* plan = (sdp_StPlan*) calloc(1, sizeof(sdp_StPlan));
    if (!plan) return 0;
    plan->kept = sdp_mem_create_copy(in, SDP_MEM_CPU, status);
    plan->lost = sdp_mem_create_copy(in, SDP_MEM_CPU, status);
    return plan;
}

ST sdp_st_bad_plan_dangling(sdp_StPlan* plan, sdp_Error* status)
{
    if (*status) return;
    sdp_mem_free(plan->kept);
}

ST sdp_st_bad_plan_overwrite(sdp_StPlan* plan, const sdp_Mem* in, sdp_Error* status)
{
    if (*status) return;
    plan->kept = sdp_mem_create_copy(in, SDP_MEM_CPU, status);
}

ST sdp_st_good(const sdp_Mem* in, sdp_Mem* out, sdp_Error* status)
{
    if (*status) return;
    sdp_mem_check_writeable(out, status);
    sdp_mem_check_location(in, SDP_MEM_CPU, status);
    SAME(in, out);
    if (*status) return;
    sdp_Mem* tmp = sdp_mem_create_copy(in, SDP_MEM_CPU, status);
    if (!*status)
    {
        switch (sdp_mem_type(in))
        {
        case SDP_MEM_DOUBLE:
            ((double*) sdp_mem_data(out))[0] = ((const double*) sdp_mem_data_const(tmp))[0];
            break;
        case SDP_MEM_FLOAT:
            ((float*) sdp_mem_data(out))[0] = ((const float*) sdp_mem_data_const(tmp))[0];
            break;
        default:
            *status = SDP_ERR_DATA_TYPE;
            break;
        }
    }
    sdp_mem_free(tmp);
}

// Objects kept in local arrays (property S08).
#define ST_FILL sdp_Mem** box = (sdp_Mem**) calloc(n, sizeof(sdp_Mem*)); \
    if (!box) return; \
    for (int i = 0; i < n; ++i) box[i] = sdp_mem_create_copy(in, SDP_MEM_CPU, status);

ST sdp_st_bad_array_kept(const sdp_Mem* in, int n, sdp_Error* status)
{
    if (*status) return;
    ST_FILL
    free(box);
}

ST sdp_st_bad_array_early(const sdp_Mem* in, int n, sdp_Error* status)
{
    if (*status) return;
    ST_FILL
    if (*status)
    {
        free(box);
        return;
    }
    for (int i = 0; i < n; ++i) sdp_mem_free(box[i]);
    free(box);
}

ST sdp_st_bad_array_last(const sdp_Mem* in, int n, sdp_Error* status)
{
    if (*status) return;
    ST_FILL
    for (int i = 0; i < n - 1; ++i) sdp_mem_free(box[i]);
    free(box);
}

ST sdp_st_good_array(const sdp_Mem* in, int n, sdp_Error* status)
{
    if (*status) return;
    ST_FILL
    if (*status)
    {
        for (int i = 0; i < n; ++i) if (box[i]) sdp_mem_free(box[i]);
        free(box);
        return;
    }
    for (int i = n - 1; i >= 0; --i) sdp_mem_free(box[i]);
    free(box);
}

// Parallel regions (property C01).
ST sdp_st_race_bad_scalar(const double* in, double* out, int64_t n)
{
    double sum = 0.0;
    #pragma omp parallel for
    for (int64_t i = 0; i < n; ++i) sum += in[i];
    out[0] = sum;
}

ST sdp_st_race_bad_neighbour(double* out, int64_t n)
{
    #pragma omp parallel for
    for (int64_t i = 1; i < n; ++i) out[i] += out[i - 1];
}

ST sdp_st_race_bad_scatter(const int* index, double* out, int64_t n)
{
    #pragma omp parallel for
    for (int64_t i = 0; i < n; ++i) out[index[i]] += 1.0;
}

ST sdp_st_race_bad_unlocked(double* out, sdp_Mutex* lock, int64_t n)
{
    double sum = 0.0;
    #pragma omp parallel for
    for (int64_t i = 0; i < n; ++i)
    {
        sdp_mutex_lock(lock);
        sum += 1.0;
        sdp_mutex_unlock(lock);
        if (i > 5) sum = 0.0;
    }
    out[0] = sum;
}

ST sdp_st_race_bad_call(sdp_Mem* out, sdp_Error* status)
{
    if (*status) return;
    #pragma omp parallel for
    for (int i = 0; i < 10; ++i) sdp_mem_clear_contents(out, status);
}

ST sdp_st_race_bad_halves(double* out, int64_t n)
{
    #pragma omp parallel for
    for (int64_t i = 0; i < n; ++i) out[i / 2] = 1.0;
}

ST sdp_st_race_good_own(const double* in, double* out, int64_t n)
{
    #pragma omp parallel for collapse(2)
    for (int64_t i = 0; i < n; ++i)
        for (int64_t j = 0; j < 8; ++j)
            for (int k = 0; k < 3; ++k) out[(i * 8 + j) * 3 + k] = in[i * 8 + j] * k;
}

ST sdp_st_race_good_reduction(const double* in, double* out, int64_t n)
{
    double sum = 0.0;
    #pragma omp parallel for reduction(+:sum)
    for (int64_t i = 0; i < n; ++i) sum += in[i];
    out[0] = sum;
}

ST sdp_st_race_good_locked(double* out, sdp_Mutex* lock, int64_t n)
{
    double sum = 0.0;
    int64_t count = 0;
    #pragma omp parallel for
    for (int64_t i = 0; i < n; ++i)
    {
        #pragma omp atomic
        count += 1;
        #pragma omp critical(st)
        out[0] += i;
        sdp_mutex_lock(lock);
        sum += 1.0;
        sdp_mutex_unlock(lock);
    }
    out[1] = sum + count;
}

ST sdp_st_race_good_private(const double* in, double* out, int64_t n)
{
    double a = 0.0, b[4];
    #pragma omp parallel for private(a, b)
    for (int64_t i = 0; i < n; ++i)
    {
        a = in[i];
        for (int k = 0; k < 4; ++k) b[k] = a * k;
        out[i] = b[i % 4];
    }
}

ST sdp_st_lock_bad(double* out, sdp_Mutex* lock, int n)
{
    sdp_mutex_lock(lock);
    if (n > 3) return;
    out[0] += n;
    sdp_mutex_unlock(lock);
}

ST sdp_st_lock_good(double* out, sdp_Mutex* lock, int n)
{
    for (int i = 0; i < n; ++i)
    {
        sdp_mutex_lock(lock);
        if (n > 3)
        {
            sdp_mutex_unlock(lock);
            return;
        }
        out[0] += n;
        sdp_mutex_unlock(lock);
    }
}

// State of the process (property G01).
static int st_state_calls = 0;

ST sdp_st_state_bad_count(double* out)
{
    out[0] = ++st_state_calls;
}

ST sdp_st_state_bad_cache(double* out, double x)
{
    static double first = sin(x);
    out[0] = first;
}

ST sdp_st_state_good_table(double* out, double x)
{
    static const double table = sin(0.25);
    out[0] = table * x;
}

ST sdp_st_state_bad_time(double* out)
{
    out[0] = (double) time(0);
}

ST sdp_st_state_bad_mode(double* out, double x)
{
    fesetround(FE_DOWNWARD);
    out[0] = rint(x);
}

ST sdp_st_state_bad_restore(double* out, double x)
{
    const int mode = fegetround();
    fesetround(FE_DOWNWARD);
    if (x < 0.0) return;
    out[0] = rint(x);
    fesetround(mode);
}

ST sdp_st_state_good_restore(double* out, double x)
{
    const int mode = fegetround();
    fesetround(FE_DOWNWARD);
    if (x > 0.0) out[0] = rint(x);
    fesetround(mode);
}

ST sdp_st_state_bad_print(double* out)
{
    printf("%f\n", out[0]);
}

ST sdp_st_state_bad_exit(double* out)
{
    if (!out) abort();
    out[0] = 1.0;
}

ST sdp_st_state_bad_unset(double* out, int n)
{
    double x[3];
    if (n > 2) n = 2;
    out[0] = x[n];
}

ST sdp_st_state_bad_sum(double* out, int n)
{
    double sum;
    for (int i = 0; i < n; ++i) sum += out[i];
    out[0] = sum;
}

ST sdp_st_state_good_last(double* out, int n)
{
    double last, x[3];
    for (int i = 0; i < n; ++i)
    {
        if (i > 0) out[i] += last;
        last = out[i];
    }
    for (int i = 0; i < 3; ++i) x[i] = out[i];
    if (n > 3) out[n] = x[n % 3];
}

// Indices and the dimensions of arrays (property A02).
#define DOUBLES(A, DIMS) \
    sdp_mem_check_location(A, SDP_MEM_CPU, status); \
    sdp_mem_check_type(A, SDP_MEM_DOUBLE, status); \
    sdp_mem_check_num_dims(A, DIMS, status); \
    sdp_mem_check_c_contiguity(A, status)

ST sdp_st_bound_bad_pair(const sdp_Mem* in, sdp_Mem* out, sdp_Error* status)
{
    DOUBLES(in, 1);
    DOUBLES(out, 1);
    sdp_mem_check_writeable(out, status);
    if (*status) return;
    const int64_t n = sdp_mem_shape_dim(in, 0);
    const double* x = (const double*) sdp_mem_data_const(in);
    double* y = (double*) sdp_mem_data(out);
    for (int64_t i = 0; i < n; ++i) y[i] = x[i];
}

ST sdp_st_bound_bad_transposed(sdp_Mem* out, sdp_Error* status)
{
    DOUBLES(out, 2);
    sdp_mem_check_writeable(out, status);
    if (*status) return;
    const int64_t n0 = sdp_mem_shape_dim(out, 0), n1 = sdp_mem_shape_dim(out, 1);
    double* y = (double*) sdp_mem_data(out);
    for (int64_t i = 0; i < n0; ++i)
        for (int64_t j = 0; j < n1; ++j) y[j * n1 + i] = 1.0;
}

ST sdp_st_bound_bad_next(sdp_Mem* out, sdp_Error* status)
{
    DOUBLES(out, 1);
    sdp_mem_check_writeable(out, status);
    if (*status) return;
    const int64_t n = sdp_mem_shape_dim(out, 0);
    double* y = (double*) sdp_mem_data(out);
    for (int64_t i = 0; i < n; ++i) y[i] = y[i + 1];
}

ST sdp_st_bound_bad_before(sdp_Mem* out, sdp_Error* status)
{
    DOUBLES(out, 1);
    sdp_mem_check_writeable(out, status);
    if (*status) return;
    const int64_t n = sdp_mem_shape_dim(out, 0);
    double* y = (double*) sdp_mem_data(out);
    for (int64_t i = 0; i < n; ++i) y[i - 1] = y[i];
}

ST sdp_st_bound_bad_strides(const sdp_Mem* in, sdp_Mem* out, sdp_Error* status)
{
    DOUBLES(in, 2);
    DOUBLES(out, 2);
    sdp_mem_check_writeable(out, status);
    if (*status) return;
    const int64_t n0 = sdp_mem_shape_dim(in, 0), n1 = sdp_mem_shape_dim(out, 1);
    const int64_t s0 = sdp_mem_stride_elements_dim(out, 0);
    const int64_t s1 = sdp_mem_stride_elements_dim(out, 1);
    double* y = (double*) sdp_mem_data(out);
    for (int64_t i = 0; i < n0; ++i)
        for (int64_t j = 0; j < n1; ++j) y[i * s0 + j * s1] = 1.0;
}

ST sdp_st_bound_bad_cell(const sdp_Mem* in, sdp_Mem* out, sdp_Error* status)
{
    DOUBLES(in, 1);
    DOUBLES(out, 1);
    sdp_mem_check_writeable(out, status);
    if (*status) return;
    const int64_t n = sdp_mem_shape_dim(in, 0), m = sdp_mem_shape_dim(out, 0);
    const double* x = (const double*) sdp_mem_data_const(in);
    double* y = (double*) sdp_mem_data(out);
    for (int64_t i = 0; i < n; ++i)
    {
        const int64_t k = (int64_t) floor(x[i] * 0.5);
        if (k < m) y[k] += 1.0;
    }
}

ST sdp_st_bound_bad_made(const sdp_Mem* in, sdp_Error* status)
{
    DOUBLES(in, 2);
    if (*status) return;
    const int64_t n0 = sdp_mem_shape_dim(in, 0), n1 = sdp_mem_shape_dim(in, 1);
    const int64_t shape[] = {n0, n0};
    sdp_Mem* tmp = sdp_mem_create(SDP_MEM_DOUBLE, SDP_MEM_CPU, 2, shape, status);
    if (!*status)
    {
        const double* x = (const double*) sdp_mem_data_const(in);
        double* y = (double*) sdp_mem_data(tmp);
        for (int64_t i = 0; i < n0 * n1; ++i) y[i] = x[i];
    }
    sdp_mem_free(tmp);
}

ST sdp_st_bound_good_pair(const sdp_Mem* in, sdp_Mem* out, sdp_Error* status)
{
    DOUBLES(in, 1);
    DOUBLES(out, 1);
    sdp_mem_check_writeable(out, status);
    if (*status) return;
    const int64_t n = sdp_mem_shape_dim(in, 0);
    if (sdp_mem_shape_dim(out, 0) < n)
    {
        *status = SDP_ERR_INVALID_ARGUMENT;
        return;
    }
    const double* x = (const double*) sdp_mem_data_const(in);
    double* y = (double*) sdp_mem_data(out);
    for (int64_t i = 0; i < n; ++i) y[i] = x[i];
    for (int64_t i = 1; i < n; ++i) y[i - 1] = y[i];
}

ST sdp_st_bound_good_made(const sdp_Mem* in, sdp_Error* status)
{
    DOUBLES(in, 2);
    if (*status) return;
    const int64_t n0 = sdp_mem_shape_dim(in, 0), n1 = sdp_mem_shape_dim(in, 1);
    const int64_t shape[] = {n1, n0};
    sdp_Mem* tmp = sdp_mem_create(SDP_MEM_DOUBLE, SDP_MEM_CPU, 2, shape, status);
    if (!*status)
    {
        const double* x = (const double*) sdp_mem_data_const(in);
        double* y = (double*) sdp_mem_data(tmp);
        for (int64_t i = 0; i < n0; ++i)
            for (int64_t j = 0; j < n1; ++j) y[j * n0 + i] = x[i * n1 + j];
    }
    sdp_mem_free(tmp);
}

ST sdp_st_bound_good_cell(const sdp_Mem* in, sdp_Mem* out, sdp_Error* status)
{
    DOUBLES(in, 1);
    DOUBLES(out, 1);
    sdp_mem_check_writeable(out, status);
    if (*status) return;
    const int64_t n = sdp_mem_shape_dim(in, 0), m = sdp_mem_shape_dim(out, 0);
    const double* x = (const double*) sdp_mem_data_const(in);
    double* y = (double*) sdp_mem_data(out);
    for (int64_t i = 0; i < n; ++i)
    {
        const int64_t k = (int64_t) floor(x[i] * 0.5);
        if (k < 0 || k >= m) continue;
        y[k] += 1.0;
    }
}

ST sdp_st_bound_bad_heap(const sdp_Mem* in, sdp_Error* status)
{
    DOUBLES(in, 1);
    if (*status) return;
    const int64_t n = sdp_mem_shape_dim(in, 0);
    const double* x = (const double*) sdp_mem_data_const(in);
    double* y = (double*) calloc((size_t) n, sizeof(double));
    if (!y) return;
    for (int64_t i = 0; i <= n; ++i) y[i] += 1.0;
    for (int64_t i = 0; i < n; ++i) y[i] += x[i];
    free(y);
}

ST sdp_st_bound_bad_local(const sdp_Mem* in, sdp_Mem* out, sdp_Error* status)
{
    DOUBLES(in, 1);
    DOUBLES(out, 1);
    sdp_mem_check_writeable(out, status);
    if (*status) return;
    const int64_t n = sdp_mem_shape_dim(in, 0);
    double last[3] = {0};
    const double* x = (const double*) sdp_mem_data_const(in);
    double* y = (double*) sdp_mem_data(out);
    for (int64_t i = 0; i < n; ++i) last[i % 4] = x[i];
    const int64_t m = sdp_mem_shape_dim(out, 0);
    for (int64_t i = 0; i < m; ++i) y[i] = last[i % 3];
}

ST sdp_st_bound_good_heap(const sdp_Mem* in, sdp_Error* status)
{
    DOUBLES(in, 1);
    if (*status) return;
    const int64_t n = sdp_mem_shape_dim(in, 0);
    const double* x = (const double*) sdp_mem_data_const(in);
    double* y = (double*) calloc((size_t) n + 1, sizeof(double));
    if (!y) return;
    for (int64_t i = 0; i <= n; ++i) y[i] += 1.0;
    for (int64_t i = 0; i < n; ++i) y[i] += x[i];
    free(y);
}

ST sdp_st_bound_good_local(const sdp_Mem* in, sdp_Mem* out, sdp_Error* status)
{
    DOUBLES(in, 1);
    DOUBLES(out, 1);
    sdp_mem_check_writeable(out, status);
    if (*status) return;
    const int64_t n = sdp_mem_shape_dim(in, 0);
    double last[3] = {0};
    const double* x = (const double*) sdp_mem_data_const(in);
    double* y = (double*) sdp_mem_data(out);
    for (int64_t i = 0; i < n; ++i) last[i % 3] = x[i];
    const int64_t m = sdp_mem_shape_dim(out, 0);
    for (int64_t i = 0; i < m; ++i) y[i] = last[i % 3];
}
