"""The registry: which specification, driver and trace specification decide
which property, and the clauses that must have been evaluated."""


class P:
    def __init__(self, mcs, driver, trace, expect, mode='', drop=True,
                 env=None, also=()):
        self.mcs = mcs          # [(module, quick cfg, thorough cfg)]
        self.driver = driver
        self.trace = trace
        self.expect = expect    # clauses that must have been evaluated
        self.mode = mode
        self.drop = drop
        self.env = env or {}
        self.also = also        # further (mcs, driver, trace, mode)


def mc(m):
    return (m, m + '.cfg', m + '_thorough.cfg')


FIRM = [mc('MC_Firm')]
REP = [mc('MC_Reports')]
PACK = [mc('MC_Packages')]
# packages and streams with energy, for what all kinds of packages share
ENERGY = [([mc('MC_Enthalpy')], 'drv_enthalpy', 'Trace_Enthalpy', 'brief')]
MATTER = [mc('MC_Matter')]
TRANSPORT = [mc('MC_Transport')]
PROPS = {
    'B01': P([mc('MC_Clock')], 'drv_clock', 'Trace_Clock',
             ['counter', 'now', 'at', 'query_is_pure']),
    'B02': P([mc('MC_Chart')], 'drv_chart', 'Trace_Chart',
             ['accepted', 'tree', 'path', 'type', 'lookup', 'descendants',
              'validate']),
    'B03': P([mc('MC_Business')], 'drv_business', 'Trace_Business',
             ['tree', 'path', 'lookup', 'accepted', 'refused',
              'refused_unchanged']),
    'B04': P(FIRM, 'drv_firm', 'Trace_Firm', ['schedule', 'posting']),
    'B05': P(FIRM, 'drv_firm', 'Trace_Firm',
             ['schedule', 'advance', 'interest', 'instalment', 'repaid']),
    'B06': P(FIRM, 'drv_firm', 'Trace_Firm',
             ['not_before_year_end', 'entry_count', 'date', 'source',
              'trading', 'gross_profit', 'income', 'retained']),
    'B07': P(FIRM, 'drv_firm', 'Trace_Firm',
             ['nothing_else', 'complete', 'clean_start', 'append_only',
              'clock', 'rerun', 'beyond']),
    'B08': P(REP, 'drv_reports', 'Trace_Reports',
             ['selection', 'rows', 'total']),
    'B09': P(REP, 'drv_reports', 'Trace_Reports',
             ['layout', 'assets', 'liabilities', 'equity', 'totals']),
    'B10': P(REP, 'drv_reports', 'Trace_Reports',
             ['layout', 'revenue', 'cost_of_sales', 'gross', 'expenses',
              'total_expenses', 'net_income']),
    'B11': P(REP, 'drv_reports', 'Trace_Reports', ['complete', 'rows']),
    'B12': P(REP, 'drv_reports', 'Trace_Reports',
             ['same_table', 'read_only']),
    'C01': P([mc('MC_Store')], 'drv_store', 'Trace_Store',
             ['possible', 'visible', 'untouched', 'write_pure', 'same',
              'fresh', 'behaves', 'result']),
    'S01': P([mc('MC_Formula')], 'drv_formula', 'Trace_Formula',
             ['accept', 'composition', 'elements']),
    'S02': P([mc('MC_Formula')], 'drv_formula', 'Trace_Formula',
             ['molar_mass', 'fractions', 'amounts', 'masses', 'inverse',
              'amount_fractions', 'mass_fractions', 'sum', 'convert',
              'conserves', 'pure']),
    'M01': P(PACK, 'drv_packages', 'Trace_Packages',
             ['create', 'add', 'extract', 'conserved', 'scale', 'clear',
              'clone', 'mass', 'components', 'fractions', 'elements',
              'element_total'], 'chem'),
    'M02': P(PACK, 'drv_packages', 'Trace_Packages',
             ['create', 'add', 'extract', 'conserved', 'scale', 'clear',
              'clone', 'mass', 'components', 'fractions'], 'psd'),
    'M03': P(PACK, 'drv_packages', 'Trace_Packages',
             ['create', 'add', 'extract', 'conserved', 'scale', 'clear',
              'clone', 'mass', 'components', 'fractions', 'derived'],
             'slurry'),
    'M04': P([mc('MC_Enthalpy')], 'drv_enthalpy', 'Trace_Enthalpy',
             ['create', 'add', 'extract', 'conserved', 'scale', 'set', 'clear',
              'clone', 'copy', 'props', 'first_law', 'others', 'refused',
              'mass', 'amounts', 'elements', 'assay', 'assays', 'material',
              'KF1'],
             'package'),
    'M05': P([mc('MC_Enthalpy')], 'drv_enthalpy', 'Trace_Enthalpy',
             ['create', 'add', 'extract', 'conserved', 'scale', 'set', 'clear',
              'clone', 'copy', 'props', 'first_law', 'others', 'refused',
              'mass', 'amounts', 'elements', 'assay', 'assays', 'material',
              'KF1'],
             'stream'),
    'M06': P(PACK, 'drv_packages', 'Trace_Packages',
             ['operands', 'material'], also=ENERGY),
    'M07': P(PACK, 'drv_packages', 'Trace_Packages',
             ['refused', 'unchanged', 'accepted', 'assay_refused'],
             also=ENERGY),
    'M08': P(PACK, 'drv_packages', 'Trace_Packages',
             ['read', 'elements', 'bad_file', 'totals', 'assay_added'],
             also=ENERGY),
    'M09': P(PACK, 'drv_packages', 'Trace_Packages',
             ['package', 'material', 'stream'], also=ENERGY),
    'T01': P([mc('MC_Thermo')], 'drv_thermochem', 'Trace_Thermochem',
             ['Cp', 'H', 'S', 'G', 'units', 'refused', 'molar_mass'],
             'laws'),
    'T02': P([mc('MC_ThermoLib')], 'drv_thermochem', 'Trace_Thermochem',
             ['data', 'load', 'write', 'listing', 'references', 'shipped',
              'default', 'text'], 'library'),
    'F01': P(MATTER, 'drv_matter', 'Trace_Matter', ['value', 'refused']),
    'F02': P(MATTER, 'drv_matter', 'Trace_Matter',
             ['value', 'refused', 'outside']),
    'F03': P(MATTER, 'drv_matter', 'Trace_Matter', ['value', 'refused']),
    'F04': P(MATTER, 'drv_matter', 'Trace_Matter',
             ['value', 'refused', 'read', 'fit', 'degree', 'metadata',
              'limits', 'template', 'shipped']),
    'F05': P(MATTER, 'drv_matter', 'Trace_Matter', ['value', 'refused']),
    'F06': P(MATTER, 'drv_matter', 'Trace_Matter',
             ['pure', 'refused', 'accepted', 'again', 'material', 'own',
              'default', 'shipped', 'data', 'numeric', 'coherent']),
    'N01': P(TRANSPORT, 'drv_transport', 'Trace_Transport',
             ['value', 'refused', 'again', 'region', 'fluids']),
    'N02': P(TRANSPORT, 'drv_transport', 'Trace_Transport',
             ['number', 'constant']),
    'N03': P(TRANSPORT, 'drv_transport', 'Trace_Transport',
             ['value', 'colebrook', 'warned']),
    'A01': P([mc('MC_Support')], 'drv_support', 'Trace_Support',
             ['accepted', 'objects', 'call', 'hash', 'bibliography', 'kept',
              'path', 'date']),
}
