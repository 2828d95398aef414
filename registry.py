"""What decides each property: the model configurations, the driver and the result-free fields of its events."""
ALG = [('MC_Algebra', 'MC_Algebra_P'), ('MC_Algebra', 'MC_Algebra_M')]
PROPS = {
    'C01': dict(mc=ALG, driver='drv_algebra.py', inputs=['a', 'b']),
    'C02': dict(mc=ALG, driver='drv_algebra.py', inputs=['A', 'B', 'mode', 'why']),
    'C03': dict(mc=[('MC_Strings', 'MC_Strings')], driver='drv_session.py', inputs=['a', 'b', 'o', 'l', 't', 'pf', 'tok', 'num', 's']),
    'C04': dict(mc=[('MC_Session', 'MC_Session_B')], gen=('MC_Session', 'MC_Session_genB', 24), driver='drv_session.py', inputs=['ty', 'nb', 'no', 'cmd', 'rexc', 'look']),
    'C05': dict(mc=[('MC_Session', 'MC_Session_O'), ('MC_Session', 'MC_Session_I')], gen=('MC_Session', 'MC_Session_genO', 24),
                driver='drv_session.py', inputs=['ty', 'nb', 'no', 'cmd', 'rexc', 'look']),
    'C06': dict(mc=ALG, driver='drv_algebra.py', inputs=['A', 'B', 'O', 'mode', 'bs']),
    'C07': dict(mc=[('MC_Conversion', 'MC_Conversion_2')], mc_thorough=[('MC_Conversion', 'MC_Conversion_3')], driver='drv_conversion.py', inputs=['A', 'to', 'inc', 'str', 'why']),
    'C08': dict(mc=[('MC_Conversion', 'MC_Conversion_2')], mc_thorough=[('MC_Conversion', 'MC_Conversion_3')], driver='drv_conversion.py', inputs=['F', 'T', 'fi', 'ti', 'n']),
    'C09': dict(mc=[('MC_Conversion', 'MC_Conversion_2')], mc_thorough=[('MC_Conversion', 'MC_Conversion_3')], driver='drv_conversion.py', inputs=['t', 'ks', 'labels', 'inc']),
    'C22': dict(mc=[('MC_Tools', 'MC_Tools')], driver='drv_tools.py', inputs=['p', 'q', 'v', 'how', 'a', 'b', 'adj', 'bfs', 'text', 'subs']),
    'C23': dict(mc=[('MC_LinAlg', 'MC_LinAlg')], driver='drv_tools.py', inputs=['n', 'A', 'B', 'NA', 'NB', 'tol', 'sp', 'kind', 'orth', 'W', 'we', 'why']),
    'C10': dict(mc=[('MC_Crystal', 'MC_Crystal'), ('MC_Tools', 'MC_Tools')], driver='drv_crystal.py', inputs=['lat', 't', 'ks', 'R2', 'allowed', 'inc']),
    'C11': dict(mc=[('MC_Crystal', 'MC_Crystal')], driver='drv_crystal.py', inputs=['lat', 'x', 'nm', 'a', 'b']),
    'C12': dict(mc=[('MC_Transform', 'MC_Transform_2'), ('MC_Crystal', 'MC_Crystal')], mc_thorough=[('MC_Transform', 'MC_Transform_3')], driver='drv_crystal.py',
                inputs=['lat', 'kind', 'p', 'M', 't', 'up', 'dn', 'a', 'b', 'n', 'i', 'A']),
    'C25': dict(mc=[('MC_Crystal', 'MC_Crystal')], driver='drv_crystal.py', inputs=['lat', 'gens', 'k']),
    'C13': dict(mc=[('MC_Symmetry', 'MC_Symmetry'), ('MC_Transform', 'MC_Transform_2'), ('MC_LinAlg', 'MC_LinAlg')], driver='drv_sym.py', inputs=['lat', 'kind', 'p', 'M', 't', 'up', 'dn', 'a', 'b', 'n', 'i', 'A', 'B', 'strs', 'y', 'W', 'we', 'sup']),
    'C14': dict(mc=[('MC_Symmetry', 'MC_Symmetry'), ('MC_Algebra', 'MC_Algebra_P'), ('MC_LinAlg', 'MC_LinAlg')], driver='drv_sym.py', inputs=['B', 'y', 'W', 'we', 'sup']),
    'C15': dict(mc=[('MC_Symmetry', 'MC_Symmetry'), ('MC_LinAlg', 'MC_LinAlg')], driver='drv_sym.py', inputs=['lat', 'kind', 'p', 'M', 't', 'up', 'dn', 'a', 'b', 'n', 'i', 'A', 'B', 'y', 'W', 'we', 'U', 'NA', 'opts']),
    'C16': dict(mc=[('MC_Symmetry', 'MC_Symmetry'), ('MC_Transform', 'MC_Transform_2')], driver='drv_sym.py', inputs=['lat', 'kind', 'p', 'M', 't', 'up', 'dn', 'a', 'b', 'n', 'i', 'A', 'B', 'gens']),
    'C17': dict(mc=[('MC_Lie', 'MC_Lie')], driver='drv_lie.py', inputs=['B', 'U', 'pairs', 'NA', 'W', 'we', 'Z', 'sigma']),
    'C18': dict(mc=[('MC_Explore', 'MC_Explore')], gen=('MC_Explore', 'MC_Explore_gen', 9), gen_num=200, driver='drv_search.py', inputs=['H', 'B', 'all', 'A']),
    'C19': dict(mc=[('MC_Search', 'MC_Search_ci'), ('MC_Search', 'MC_Search_simple')], driver='drv_search.py', inputs=['variant', 'Hs', 'H', 'init', 'inits', 'orth', 'words', 'free', 'steps', 'nH', 'nHs', 'nO', 'max', 'thr', 'tcn', 'mrc', 'B', 'vec', 'E', 'vals', 'T', 'certs', 'feas']),
    'C20': dict(mc=[('MC_Matrix', 'MC_Matrix_2')], mc_thorough=[('MC_Matrix', 'MC_Matrix_3')], driver='drv_diag.py', inputs=['A', 'n', 'p', 'M', 'B', 'cs', 'v', 'u', 'q', 'R', 'k', 'hasop', 'want', 'why']),
    'C21': dict(mc=[('MC_Matrix', 'MC_Matrix_2')], mc_thorough=[('MC_Matrix', 'MC_Matrix_3')], driver='drv_diag.py', inputs=['A', 'n', 'herm', 'k', 'fv', 'fX', 'FE', 'FP', 'FU', 'FV', 'want', 'why']),
    'C24': dict(mc=[('MC_Print', 'MC_Print_3')], mc_thorough=[('MC_Print', 'MC_Print_4')], driver='drv_print.py', inputs=['lat', 'text', 'ord', 'relab', 'filt', 'kw', 'why', 'B', 'A', 'conv', 'tol', 'raw']),
}
