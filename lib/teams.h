/* Teams: a call made with any number of threads asked for, directly or within a parallel region of the caller (where the
 * library gets a team of one thread, or a nested team). */
#ifndef TEAMS_H
#define TEAMS_H
#include <omp.h>
static int team_n = 1, team_mode = 0; /* 0 direct, 1 within a region, one level only; 2 within a region, nested teams */
static const char *const team_modes[] = { "", " within a parallel region", " nested in a parallel region" };
#define TEAM(call) do { \
    if (team_n == 1 && !team_mode) { call; break; } \
    omp_set_max_active_levels(team_mode == 2 ? 2 : 1); omp_set_num_threads(team_n); \
    if (!team_mode) { call; } else { _Pragma("omp parallel num_threads(2)") { _Pragma("omp master") { call; } } } \
    omp_set_num_threads(1); omp_set_max_active_levels(1); } while (0)
#define TEAM_STR "teams of %d%s", team_n, team_modes[team_mode]
static void __attribute__((unused)) team_pick(int most){ team_n = mc_range(1, most); team_mode = mc_choose(3); if (team_n == 1 && team_mode != 1) mc_skip(); }
static void __attribute__((unused)) team_done(void){ team_n = 1; team_mode = 0; }
#endif
