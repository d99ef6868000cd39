from vp.core import Unit

def pid_unit(tag, tier='quick', incs=(), defs=()):
    U = Unit('pid_' + tag, src=['gel/pid/pid.c'], incs=list(incs), defs=list(defs), before='#include "gel_conf.h"', spec=r'''
#define HN GEL_PID_INTEGRAL_HISTORY_SIZE
#define DN GEL_PID_DERIVATIVE_DELTA
typedef pid_control_type_t in_t; typedef pid_output_type_t out_t;
static size_t K, KD; /* watched history slots: arbitrary */
#define VALID(p) (VP_RW(p, sizeof *(p)) && (p)->index < HN && (p)->derivative_index < DN && (p)->derivative_history_size <= DN)
#define MAG(e) ((e) > 0 ? (e) : -(e))
#define ERR(p) ((out_t)((p).sp - (p).input))
static int sign_after(pid_ctrl_t o, in_t v) { out_t e = o.sp - v; return e > 0 ? 1 : e < 0 ? -1 : o.sign; }
static int cleared(pid_ctrl_t o, in_t v) { return o.auto_clear_integral_history && sign_after(o, v) != o.sign; }
static out_t admitted(pid_ctrl_t o, in_t v) { /* the contribution of one reading to the integral */
    out_t e = o.sp - v;
    if (e > 0) return !o.integral_low_thresh_enabled || MAG(e) < o.integral_low_threshold ? e : 0;
    if (e < 0) return !o.integral_high_thresh_enabled || MAG(e) < o.integral_high_threshold ? e : 0;
    return 0;
}
static out_t total(pid_ctrl_t *p) { out_t s = 0; for (size_t i = 0; i < HN; i++) s += p->history[i]; return s; }
/* the error DN readings ago, or the oldest one known */
static size_t oldest(pid_ctrl_t *p) { return p->derivative_history_size == DN ? p->derivative_index : 0; }
#ifdef VP_NATIVE
#define ALL(p) 1
#endif
''')
    c = U.contract
    RW = 'VP_RW(pid, sizeof *pid)'
    c('void pid_init(pid_ctrl_t *pid)', requires=[RW + ' && K < HN'], assigns='*pid', ensures={
        'no_history': 'pid->history[K] == 0 && pid->index < HN && pid->derivative_history_size == 0 && pid->derivative_index < DN && !pid->first_value',
        'neutral': '!(pid->Kp != 0 || pid->Ki != 0 || pid->Kd != 0) && pid->input == 0 && pid->sp == 0 && !pid->auto_clear_integral_history && !pid->derivative_threshold && !pid->integral_high_thresh_enabled && !pid->integral_low_thresh_enabled'})
    c('void pid_ctrl_tune(pid_ctrl_t *pid, float kp, float ki, float kd)', requires=[RW + ' && kp == kp && ki == ki && kd == kd'], assigns='pid->Kp, pid->Ki, pid->Kd', ensures={
        'each_its_own': 'pid->Kp == kp && pid->Ki == ki && pid->Kd == kd'})
    O = r'\old(*pid)'
    c('void pid_add_input(pid_ctrl_t *pid, pid_control_type_t value)', requires=['VALID(pid) && K < HN && KD < DN'],
      assigns='pid->input, pid->sign, pid->index, pid->history, pid->derivative_history, pid->derivative_index, pid->derivative_history_size, pid->first_value', ensures={
        'input_is_the_reading': 'pid->input == value && VALID(pid)',
        'sign_follows_the_error': 'pid->sign == sign_after(%s, value)' % O,
        'history_is_a_window_of_the_last_contributions': 'pid->history[K] == (K == (cleared({0}, value) ? 0 : {0}.index) ? admitted({0}, value) : cleared({0}, value) ? 0 : {0}.history[K])'.format(O),
        'window_advances': 'pid->index == ((cleared({0}, value) ? 0 : {0}.index) + 1) % HN'.format(O),
        'derivative_history_takes_the_previous_error': 'pid->first_value && pid->derivative_history[KD] == ({0}.first_value && KD == {0}.derivative_index ? ERR({0}) : {0}.derivative_history[KD])'.format(O),
        'derivative_window_advances': 'pid->derivative_index == ({0}.first_value ? ({0}.derivative_index + 1) % DN : {0}.derivative_index) && pid->derivative_history_size == VP_MIN(DN, {0}.derivative_history_size + ({0}.first_value != 0))'.format(O)})
    c('void pid_clear_integral_history(pid_ctrl_t *pid)', requires=['VALID(pid) && K < HN'], assigns='pid->index, pid->history', ensures={'nothing_left': 'pid->index == 0 && pid->history[K] == 0'})
    c('pid_output_type_t pid_current_error(pid_ctrl_t *pid)', requires=['VP_R(pid, sizeof *pid)'], assigns='', ensures={'set_point_minus_input': r'\result == ERR(*pid)'})
    c('pid_output_type_t pid_compute_p(pid_ctrl_t *pid)', requires=['VP_R(pid, sizeof *pid)'], assigns='', ensures={'kp_times_error': r'\result == (out_t)(pid->Kp * ERR(*pid))'})
    c('pid_output_type_t pid_compute_i(pid_ctrl_t *pid)', requires=['VP_R(pid, sizeof *pid)'], assigns='', ensures={'ki_times_the_sum_of_the_window': r'\result == (out_t)(total(pid) * pid->Ki)'})
    c('pid_output_type_t pid_compute_d(pid_ctrl_t *pid)', requires=['VALID(pid)'], assigns='', ensures={
        'nothing_without_history_or_above_threshold': r'VP_IMP(pid->derivative_history_size == 0 || (pid->derivative_threshold && MAG(ERR(*pid)) > pid->derivative_low_threshold), \result == 0)',
        'kd_times_change_of_error': r'VP_IMP(pid->derivative_history_size > 0 && !(pid->derivative_threshold && MAG(ERR(*pid)) > pid->derivative_low_threshold), \result == (out_t)(pid->Kd * (ERR(*pid) - pid->derivative_history[oldest(pid)])))'})
    SET = [('set_sp', 'pid_control_type_t sp', 'sp', 'sp'), ('enable_integral_low_threshold', 'int enable', 'integral_low_thresh_enabled', 'enable'),
           ('enable_integral_high_threshold', 'int enable', 'integral_high_thresh_enabled', 'enable'), ('enable_derivative_threshold', 'int enable', 'derivative_threshold', 'enable'),
           ('set_integral_low_threshold', 'size_t threshold', 'integral_low_threshold', 'threshold'), ('set_integral_high_threshold', 'size_t threshold', 'integral_high_threshold', 'threshold'),
           ('set_derivative_threshold', 'pid_control_type_t low_thresh, pid_control_type_t high_thresh', 'derivative_low_threshold', 'low_thresh'),
           ('set_auto_integral_clear', 'int autoclear', 'auto_clear_integral_history', 'autoclear')]
    P = ['C16']
    k = dict(tier=tier, unwind=6)
    PID = 'IN(pid_ctrl_t, p); IN(size_t, kk); IN(size_t, kd); VP_SMALL(kk, HN - 1); VP_SMALL(kd, DN - 1); VP_SMALL(p.index, HN - 1); VP_SMALL(p.derivative_index, DN - 1); VP_SMALL(p.derivative_history_size, DN); K = kk; KD = kd; '
    for f, ps, field, v in SET:
        c('void pid_%s(pid_ctrl_t *pid, %s)' % (f, ps), requires=[RW], assigns='pid->' + field, ensures={'only_that_setting': 'pid->%s == (__typeof__(pid->%s))%s' % (field, field, v)})
        a = [x.split() for x in ps.split(', ')]
        U.proof('pid_' + f, PID + ''.join('IN(%s, %s); ' % (t, n) for t, n in a) + 'CALL(pid_%s)(&p, %s);' % (f, ', '.join(n for t, n in a)), P, **k)
    U.proof('pid_init', PID + 'CALL(pid_init)(&p);', P, **k)
    U.proof('pid_ctrl_tune', PID + 'IN(float, a); IN(float, b); IN(float, d); CALL(pid_ctrl_tune)(&p, a, b, d);', P, **k)
    U.proof('pid_add_input', PID + 'IN(in_t, v); CALL(pid_add_input)(&p, v);', P, cost=3, **k)
    U.proof('pid_clear_integral_history', PID + 'CALL(pid_clear_integral_history)(&p);', P, **k)
    for f in ('pid_current_error', 'pid_compute_p', 'pid_compute_d'):
        U.proof(f, PID + 'CALL(%s)(&p);' % f, P, cost=5, **k)
    U.proof('pid_compute_i', PID + 'CALL(pid_compute_i)(&p);', P, cost=9, tier=tier, unwind=202)
    return U

pid_unit('int')
V = Unit('pid_sum', src=['gel/pid/pid.c'], before='#include "gel_conf.h"', spec='static pid_output_type_t GP, GI, GD; /* the three terms of this state, whatever they are */\n')
for t in 'pid':
    V.contract('pid_output_type_t pid_compute_%s(pid_ctrl_t *pid)' % t, requires=['VP_R(pid, sizeof *pid)'], assigns='', ensures={'term': r'\result == G%s' % t.upper()})
V.lemma('pid_compute_is_the_sum_of_the_three_terms', r'''
    IN(pid_ctrl_t, p); IN(pid_output_type_t, a); IN(pid_output_type_t, b); IN(pid_output_type_t, d);
    VP_SMALL(p.index, 1); VP_SMALL(p.derivative_index, 1); VP_SMALL(p.derivative_history_size, 1);
    GP = a; GI = b; GD = d;
#ifndef VP_DFCC
    ASSUME(p.index < GEL_PID_INTEGRAL_HISTORY_SIZE && p.derivative_index < GEL_PID_DERIVATIVE_DELTA && p.derivative_history_size <= GEL_PID_DERIVATIVE_DELTA);
    GP = pid_compute_p(&p); GI = pid_compute_i(&p); GD = pid_compute_d(&p);
#endif
    pid_output_type_t r = pid_compute(&p);
    ASSERT("sum of the three terms", r == (pid_output_type_t)(GP + GI + GD));''', ['C16'],
    replace=['pid_compute_p', 'pid_compute_i', 'pid_compute_d'], unwind=202, note='the three terms are pure functions of the state (proved: their frames are empty), named by ghost constants')
V.assume = ['pid configured as in test/gel_conf.h (integer types, 200 integral and 5 derivative slots); integer sums in machine arithmetic, float products in IEEE single precision']
