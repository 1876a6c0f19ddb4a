/* generated once from contracts/c16.py: expected texts and names */
static const char* const reasons[] = {"Success", "Invalid argument", "Insufficient memory", "Illegal address", "Not implemented", "Corrupted workspace", "Bad variable space", "Out of bounds index", "Line search not started", "Not a descent direction", "Step changed", "Step outside bracket", "Lower step bound larger than upper bound", "Minimal step length less than zero", "Step lesser than lower bound", "Step greater than upper bound", "Convergence within function tolerance", "Convergence within gradient tolerance", "Convergence within variable tolerance", "Step blocked at upper bound", "Step blocked at lower bound", "Rounding errors prevent progress", "Operator is not positive definite", "Preconditioner is not positive definite", "Box set is infeasible", "Variables cannot be improved (would block)", "Undefined value", "Too many evaluations", "Too many iterations"};
static const struct { const char* n; long v; } consts[] = {{"OPK_TRUE", (long)OPK_TRUE}, {"OPK_FALSE", (long)OPK_FALSE}, {"OPK_FLOAT", (long)OPK_FLOAT}, {"OPK_DOUBLE", (long)OPK_DOUBLE}, {"OPK_TASK_ERROR", (long)OPK_TASK_ERROR}, {"OPK_TASK_START", (long)OPK_TASK_START}, {"OPK_TASK_COMPUTE_FG", (long)OPK_TASK_COMPUTE_FG}, {"OPK_TASK_NEW_X", (long)OPK_TASK_NEW_X}, {"OPK_TASK_FINAL_X", (long)OPK_TASK_FINAL_X}, {"OPK_TASK_WARNING", (long)OPK_TASK_WARNING}, {"OPK_LNSRCH_ERROR", (long)OPK_LNSRCH_ERROR}, {"OPK_LNSRCH_SEARCH", (long)OPK_LNSRCH_SEARCH}, {"OPK_LNSRCH_CONVERGENCE", (long)OPK_LNSRCH_CONVERGENCE}, {"OPK_LNSRCH_WARNING", (long)OPK_LNSRCH_WARNING}, {"OPK_NLCG_FLETCHER_REEVES", (long)OPK_NLCG_FLETCHER_REEVES}, {"OPK_NLCG_HESTENES_STIEFEL", (long)OPK_NLCG_HESTENES_STIEFEL}, {"OPK_NLCG_POLAK_RIBIERE_POLYAK", (long)OPK_NLCG_POLAK_RIBIERE_POLYAK}, {"OPK_NLCG_FLETCHER", (long)OPK_NLCG_FLETCHER}, {"OPK_NLCG_LIU_STOREY", (long)OPK_NLCG_LIU_STOREY}, {"OPK_NLCG_DAI_YUAN", (long)OPK_NLCG_DAI_YUAN}, {"OPK_NLCG_PERRY_SHANNO", (long)OPK_NLCG_PERRY_SHANNO}, {"OPK_NLCG_HAGER_ZHANG", (long)OPK_NLCG_HAGER_ZHANG}, {"OPK_NLCG_POWELL", (long)OPK_NLCG_POWELL}, {"OPK_NLCG_SHANNO_PHUA", (long)OPK_NLCG_SHANNO_PHUA}, {"OPK_BOUND_NONE", (long)OPK_BOUND_NONE}, {"OPK_BOUND_SCALAR_FLOAT", (long)OPK_BOUND_SCALAR_FLOAT}, {"OPK_BOUND_SCALAR_DOUBLE", (long)OPK_BOUND_SCALAR_DOUBLE}, {"OPK_BOUND_STATIC_FLOAT", (long)OPK_BOUND_STATIC_FLOAT}, {"OPK_BOUND_STATIC_DOUBLE", (long)OPK_BOUND_STATIC_DOUBLE}, {"OPK_BOUND_VOLATILE_FLOAT", (long)OPK_BOUND_VOLATILE_FLOAT}, {"OPK_BOUND_VOLATILE_DOUBLE", (long)OPK_BOUND_VOLATILE_DOUBLE}, {"OPK_BOUND_VECTOR", (long)OPK_BOUND_VECTOR}, {"OPK_ASCENT", (long)OPK_ASCENT}, {"OPK_DESCENT", (long)OPK_DESCENT}, {"OPK_SCALING_NONE", (long)OPK_SCALING_NONE}, {"OPK_SCALING_OREN_SPEDICATO", (long)OPK_SCALING_OREN_SPEDICATO}, {"OPK_SCALING_BARZILAI_BORWEIN", (long)OPK_SCALING_BARZILAI_BORWEIN}, {"OPK_LBFGS", (long)OPK_LBFGS}, {"OPK_VMLMB", (long)OPK_VMLMB}, {"OPK_BLMVM", (long)OPK_BLMVM}, {"OPK_ALGORITHM_NLCG", (long)OPK_ALGORITHM_NLCG}, {"OPK_ALGORITHM_VMLMB", (long)OPK_ALGORITHM_VMLMB}, {"OPK_FMIN_BOUNDED_BY_A", (long)OPK_FMIN_BOUNDED_BY_A}, {"OPK_FMIN_BOUNDED_BY_B", (long)OPK_FMIN_BOUNDED_BY_B}, {"OPK_FMIN_SMOOTH", (long)OPK_FMIN_SMOOTH}, {"OPK_FMIN_ERROR", (long)OPK_FMIN_ERROR}, {"OPK_FMIN_START", (long)OPK_FMIN_START}, {"OPK_FMIN_FX", (long)OPK_FMIN_FX}, {"OPK_FMIN_NEWX", (long)OPK_FMIN_NEWX}, {"OPK_FMIN_CONVERGENCE", (long)OPK_FMIN_CONVERGENCE}, {"OPK_SUCCESS", (long)OPK_SUCCESS}, {"OPK_INVALID_ARGUMENT", (long)OPK_INVALID_ARGUMENT}, {"OPK_INSUFFICIENT_MEMORY", (long)OPK_INSUFFICIENT_MEMORY}, {"OPK_ILLEGAL_ADDRESS", (long)OPK_ILLEGAL_ADDRESS}, {"OPK_NOT_IMPLEMENTED", (long)OPK_NOT_IMPLEMENTED}, {"OPK_CORRUPTED_WORKSPACE", (long)OPK_CORRUPTED_WORKSPACE}, {"OPK_BAD_SPACE", (long)OPK_BAD_SPACE}, {"OPK_OUT_OF_BOUNDS_INDEX", (long)OPK_OUT_OF_BOUNDS_INDEX}, {"OPK_NOT_STARTED", (long)OPK_NOT_STARTED}, {"OPK_NOT_A_DESCENT", (long)OPK_NOT_A_DESCENT}, {"OPK_STEP_CHANGED", (long)OPK_STEP_CHANGED}, {"OPK_STEP_OUTSIDE_BRACKET", (long)OPK_STEP_OUTSIDE_BRACKET}, {"OPK_STPMIN_GT_STPMAX", (long)OPK_STPMIN_GT_STPMAX}, {"OPK_STPMIN_LT_ZERO", (long)OPK_STPMIN_LT_ZERO}, {"OPK_STEP_LT_STPMIN", (long)OPK_STEP_LT_STPMIN}, {"OPK_STEP_GT_STPMAX", (long)OPK_STEP_GT_STPMAX}, {"OPK_FTOL_TEST_SATISFIED", (long)OPK_FTOL_TEST_SATISFIED}, {"OPK_GTOL_TEST_SATISFIED", (long)OPK_GTOL_TEST_SATISFIED}, {"OPK_XTOL_TEST_SATISFIED", (long)OPK_XTOL_TEST_SATISFIED}, {"OPK_STEP_EQ_STPMAX", (long)OPK_STEP_EQ_STPMAX}, {"OPK_STEP_EQ_STPMIN", (long)OPK_STEP_EQ_STPMIN}, {"OPK_ROUNDING_ERRORS_PREVENT_PROGRESS", (long)OPK_ROUNDING_ERRORS_PREVENT_PROGRESS}, {"OPK_NOT_POSITIVE_DEFINITE", (long)OPK_NOT_POSITIVE_DEFINITE}, {"OPK_BAD_PRECONDITIONER", (long)OPK_BAD_PRECONDITIONER}, {"OPK_INFEASIBLE_BOUNDS", (long)OPK_INFEASIBLE_BOUNDS}, {"OPK_WOULD_BLOCK", (long)OPK_WOULD_BLOCK}, {"OPK_UNDEFINED_VALUE", (long)OPK_UNDEFINED_VALUE}, {"OPK_TOO_MANY_EVALUATIONS", (long)OPK_TOO_MANY_EVALUATIONS}, {"OPK_TOO_MANY_ITERATIONS", (long)OPK_TOO_MANY_ITERATIONS}};
static const struct { unsigned m; const char* n; } methods[] = {{OPK_NLCG_FLETCHER_REEVES, "Fletcher & Reeves"}, {OPK_NLCG_HESTENES_STIEFEL, "Hestenes & Stiefel"}, {OPK_NLCG_POLAK_RIBIERE_POLYAK, "Polak, Ribière & Polyak"}, {OPK_NLCG_FLETCHER, "Fletcher conjugate descent"}, {OPK_NLCG_LIU_STOREY, "Liu & Storey"}, {OPK_NLCG_DAI_YUAN, "Dai & Yuan"}, {OPK_NLCG_PERRY_SHANNO, "Perry & Shanno"}, {OPK_NLCG_HAGER_ZHANG, "Hager & Zhang"}};
