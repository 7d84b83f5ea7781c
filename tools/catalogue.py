"""The properties, in the order they are listed.  tools/gen.py writes
properties.jsonl and MANIFEST.json from this file."""

TECH = ('TLA+ specification checked by TLC; its behaviours and seeded random '
        'ones executed on the code; recorded traces validated by TLC')


def P(id, title, statement, over, text, why, files, mech, observe, level=''):
    return dict(id=id, title=title, statement=statement,
                quantifier={'over': over, 'text': text}, why_tests_cant=why,
                anchors={'files': files,
                         'mechanism': [dict(name=n, where=w)
                                       for n, w in mech],
                         'observe_at': observe, 'hook_needed': None},
                _level=level)


TIME = 'auxi/core/time.py'
DES = 'auxi/modelling/financial/des.py'
REP = 'auxi/modelling/financial/reporting.py'
BASIC = 'auxi/modelling/business/basic.py'
STRUCT = 'auxi/modelling/business/structure.py'
MODELS = 'auxi/modelling/business/models.py'
CREP = 'auxi/core/reporting.py'
OBJ = 'auxi/core/objects.py'
CHEM = 'auxi/modelling/process/materials/chem.py'
PSD = 'auxi/modelling/process/materials/psd.py'
SLURRY = 'auxi/modelling/process/materials/slurry.py'
TCHEM = 'auxi/tools/chemistry/thermochemistry.py'
THERMO = 'auxi/modelling/process/materials/thermo.py'
MPC = 'auxi/tools/materialphysicalproperties/core.py'
POLY = 'auxi/tools/materialphysicalproperties/polynomial.py'
IDEAL = 'auxi/tools/materialphysicalproperties/idealgas.py'
GASES = 'auxi/tools/materialphysicalproperties/gases.py'
SLAGS = 'auxi/tools/materialphysicalproperties/slags.py'
COALS = 'auxi/tools/materialphysicalproperties/coals.py'
LIQUIDS = 'auxi/tools/materialphysicalproperties/liquids.py'
MATCORE = 'auxi/modelling/process/materials/core.py'
NATCONV = 'auxi/tools/transportphenomena/heattransfer/naturalconvection.py'
DIMLESS = 'auxi/tools/transportphenomena/dimensionlessquantities.py'
DUCT = 'auxi/tools/transportphenomena/fluidflow/pressuredrop.py'
CONST = 'auxi/tools/physicalconstants.py'
STOICH = 'auxi/tools/chemistry/stoichiometry.py'
BIB = 'auxi/core/bibliography.py'
HELP = 'auxi/core/helpers.py'
MCORE = 'auxi/modelling/core.py'
PCORE = 'auxi/modelling/process/core.py'

CATALOGUE = [
    P('B01', 'The model clock is an exact calendar, whatever the period',
      'The date and time of any period of a clock is its start plus that many whole durations counted from the start by calendar arithmetic (a monthly clock started on the 31st returns to the 31st after a short month). Ticking moves exactly one period forward, resetting returns to the first period, asking for a date never moves the clock, and a start, duration or counter that is set on a clock counts from then on.',
      ['inputs', 'histories', 'configurations'],
      'every start instant, every period duration, every period index incl. leap days and month ends, every sequence of tick, reset and queries',
      'The tests look at one start date and one duration; calendar edges (month ends, leap days, year turns) and interleavings of queries with ticks are not sampled.',
      [TIME], [('Clock.get_datetime_at_period_ix', TIME), ('Clock.tick/reset', TIME)],
      ['get_datetime', 'get_datetime_at_period_ix', 'timestep_ix']),
    P('B02', 'A chart of accounts stays a consistent tree',
      'After any sequence of creating, renaming and removing accounts, every account is found under exactly its slash separated path, is listed exactly once, has the type of its main account, and nothing else exists. Renaming an account moves it and everything below it to the new path. Removing an account that is not there changes nothing, looking up something that is not there yields nothing rather than an error, and a list of paths is valid if and only if every one of them exists. (Names are unique among siblings.)',
      ['histories', 'inputs'],
      'every history of create/rename/remove on general ledger structures and nested accounts, every path looked up',
      'Tests create and remove one account at a time on a fresh chart; nested accounts, re-creation after removal, and renames of accounts with descendants, are not covered.',
      [DES], [('GeneralLedgerAccount.create_account/remove_account/get_account', DES), ('GeneralLedgerStructure', DES)],
      ['accounts', 'get_account', 'get_account_descendants', 'validate_account_names', 'path']),
    P('B03', 'Business objects always know their place in the hierarchy',
      'Whatever the order in which models, entities, components and activities are created, attached, moved, renamed and removed, the path of every object is the path of its owner, a slash and its own name, and an object is found under its current name. Adding an activity that refers to an account its ledger does not have is refused and changes nothing. (Names are unique among siblings.)',
      ['histories', 'inputs'],
      'every history of creation, attachment, renaming and removal over models, entities, nested components and activities',
      'Tests check one path after one operation; renames of an ancestor after attachment and refusals part way through a history are not covered.',
      [STRUCT, MODELS, 'auxi/core/objects.py'],
      [('set_parent_path / update of child paths', STRUCT), ('create/remove of entities and components', MODELS)],
      ['path', 'name', 'entities', 'components', 'activities']),
    P('B04', 'An activity posts exactly when its schedule says so',
      'In a run an activity posts its transaction in every interval-th period of the run that lies inside its window and whose interval fits in the window, and in no other period, including when the window lies partly or wholly outside the run. The window and interval that count are those the activity and the model have when the run begins, also after earlier runs with others. Each posting carries its accounts, its amount, its own path as source, its description or name, and the date of the period.',
      ['configurations', 'inputs'],
      'every clock, run length, start, end, interval and amount',
      'Tests call one activity at a few fixed clock positions; the combinations of window edge, interval and run length are unbounded.',
      [BASIC, STRUCT], [('Activity._meet_execution_criteria', STRUCT), ('Activity.prepare_to_run', STRUCT), ('BasicActivity.run', BASIC)],
      ['gl.transactions']),
    P('B05', 'A loan is paid out once, accrues interest and is repaid exactly',
      'A loan activity first posts the loan itself, and from then on, each time it executes, interest on what is still owed and one constant annuity instalment. In a monthly model the loan account is back to zero after the agreed number of instalments, also for an interest free loan.',
      ['configurations', 'inputs'],
      'every principal, rate (including zero), duration, start, run length and clock',
      'The test sums a single loan once; the balance recurrence and its end state depend on rate, duration and schedule.',
      [BASIC], [('BasicLoanActivity.run/prepare_to_run', BASIC)], ['gl.transactions']),
    P('B06', 'The year end closes the year: once, completely, and for that year only',
      'When a financial year of an entity has elapsed, and not before, closing entries dated one second before the year end bring the gross profit, the income and expense accounts and the income summary of exactly the transactions of that year to zero and move the net income to retained earnings. Every year is closed exactly once and no transaction is closed twice.',
      ['histories', 'configurations'],
      'every ledger built by any mix of activities and hand made postings, every clock and run length over many years',
      'The tests check one year of one ledger; several years, losses, transactions between two income accounts and long periods are not sampled.',
      [STRUCT], [('Entity._perform_year_end_procedure', STRUCT)], ['gl.transactions'],
      ),
    P('B07', 'A run is reproducible and a ledger is only ever appended to',
      'A run executes every period exactly once and leaves the clock at the end; each ledger holds the postings of its own entity\'s activities and closing entries and nothing else, and what is in it never changes afterwards. Running the same model again starts from an empty ledger and gives the identical ledger, and so does stepping through it by hand.',
      ['histories', 'configurations'],
      'every model: several entities, nested components, renames and removals between runs, runs repeated any number of times',
      'Tests run a model once; state left over from an earlier run or leaking between entities only shows in histories.',
      [MODELS, STRUCT, BASIC], [('TimeBasedModel.prepare_to_run/run', MODELS), ('Entity.prepare_to_run/run', STRUCT)],
      ['gl.transactions', 'clock.timestep_ix']),
    P('B08', 'The transaction list shows exactly the selected transactions',
      'A transaction list report contains one row for each transaction whose date lies in the asked window, both ends included, and whose source is the asked component or lies below it, in date order, with its own date, source, accounts, amount and description. Its total is the sum of the listed amounts.',
      ['inputs', 'histories'],
      'every ledger, window and component path, including sibling components whose names share a prefix',
      'The tests render one ledger with two or three transactions; window edges, ties and component prefixes are not sampled.',
      [REP, DES], [('TransactionList', REP)], ['transaction_list(format=csv)']),
    P('B09', 'The balance sheet shows the true balances at its date',
      'A balance sheet lists every asset, liability and equity account used up to and including its date exactly once, with the balance that the ledger up to that date implies on the proper side, and totals that are the sums of the listed balances. Whatever was posted, its assets equal its liabilities and equity plus the income not yet closed.',
      ['inputs', 'histories'], 'every ledger and every end date',
      'The tests use a few transactions and never an account that is both debited and credited or a cut-off date inside the ledger.',
      [REP, DES], [('BalanceSheet', REP)], ['balance_sheet(format=csv)']),
    P('B10', 'The income statement shows the true income of its window',
      'An income statement covers exactly the transactions of the asked window and component that are not closing entries, lists each revenue, cost of sales and expense account with its net amount, and its gross revenue, total expenses and net income (a loss in parentheses) follow from them. Windows that split the time and components that split the firm have net incomes that add up.',
      ['inputs', 'histories'], 'every ledger, window and component path',
      'The tests check one window on a handful of postings with one sign each.',
      [REP, DES], [('IncomeStatement', REP)], ['income_statement(format=csv)']),
    P('B11', 'The chart of accounts report lists every account in its place',
      'The structure report of a general ledger lists every account exactly once with its type, number, name and description, income statement accounts before balance sheet accounts, ordered by number, each sub account below its own parent and prefixed with its number. Accounts without a number are listed too.',
      ['inputs'], 'every chart of accounts, with any nesting, numbering and description',
      'The test only looks at the first line of the default chart.',
      [REP, DES], [('GeneralLedgerStructure report', REP)], ['GeneralLedgerStructure.report']),
    P('B12', 'Every rendering of a report shows the same table; none changes data',
      'Printing a report, asking for a string, and writing or printing it as text, LaTeX or CSV give the same rows and the same cells, with no digit of an amount lost. Producing a report, in any format and any number of times, changes neither the ledger nor the chart. A report object that is kept shows the ledger as it is when it is rendered.',
      ['inputs', 'configurations'], 'every report type, ledger and format, to file or to the console',
      'The tests only check that something is returned or that a file exists.',
      [CREP, REP], [('Report.render', CREP)], ['ReportFormat', 'output_path']),
    P('S01', 'A chemical formula means exactly what it says',
      'Every well formed formula - elements and nested bracketed groups with subscripts, one hydrate part with a multiplier, a phase in square brackets - is accepted and has the composition its structure implies, also with repeated elements and a subscript of zero; everything else, including unknown element symbols, is rejected with an error. The elements of a set of formulas are exactly those that occur in them. The result for a formula does not depend on what was asked before.',
      ['inputs', 'histories'],
      'every text offered as a formula, every element of the periodic table, any order of queries',
      'The tests check half a dozen oxides and three malformed texts; grammar ambiguities (one or two letter symbols, nesting, hydrates) are unbounded.',
      [STOICH], [('grammar and CompoundVisitor', STOICH), ('elements', STOICH)],
      ['stoichiometry_coefficient(s)', 'elements']),
    P('S02', 'Molar masses, fractions and conversions obey the laws of stoichiometry',
      'The molar mass of a formula is the sum of the atomic masses of its atoms; element mass fractions, mole fractions and mass fractions follow from it and add up to one; converting mass to amount and back returns the mass; converting one compound into another keeps the mass of the basis element, and gives zero if the target does not hold it. Arguments are never modified.',
      ['inputs'], 'every formula, every mixture of compounds, every mass or amount',
      'The tests compare a few results for single oxides; the laws must hold for all formulas and mixtures.',
      [STOICH], [('molar_mass, amount(s), mass(es)', STOICH), ('convert_compound', STOICH)],
      ['molar_mass', 'amounts', 'masses', 'amount_fractions', 'mass_fractions', 'convert_compound', 'element_mass_fractions']),
    P('M01', 'Chemical packages keep every compound and element through every operation',
      'A package created from an assay holds the asked mass divided as the assay says. Adding packages (of the same or of another material whose compounds are all present, in any order) or an amount of one compound, scaling, cloning, clearing, and extracting a mass, an amount of a compound or all of a compound, change the compound masses by exactly that; what is extracted and what is left make up what was there. Total mass, compound fractions, the assay and the element masses all follow from the compound masses, and the elements add up to the total mass.',
      ['histories', 'inputs'],
      'every material, every history of package operations on any number of packages',
      'The tests do each operation once on one or two fixed materials; compounds in another order, histories of operations and empty packages are not sampled.',
      [CHEM], [('MaterialPackage.__add__/add_to/extract/__mul__/clear/clone', CHEM)],
      ['compound_masses', 'get_mass', 'get_assay', 'get_element_masses', 'get_element_mass_dictionary']),
    P('M02', 'Particulate packages keep every size class through every operation',
      'A package created from an assay holds the asked mass divided over the size classes as the assay says. Adding packages or an amount of one size class, scaling, cloning, clearing and extracting change the size class masses by exactly that, matching classes by their size; what is extracted and what is left make up what was there; mass, fractions and assay follow from the class masses.',
      ['histories', 'inputs'],
      'every material, every history of package operations on any number of packages',
      'The tests do each operation once on one or two fixed materials.',
      [PSD], [('MaterialPackage.__add__/add_to/extract/__mul__/clear/clone', PSD)],
      ['size_class_masses', 'get_mass', 'get_assay']),
    P('M03', 'Slurry packages keep solids, water and volume through every operation',
      'A slurry created from an assay holds its water fraction as water and the rest as solids divided over the size classes. Adding, scaling, cloning, clearing and extracting change size class masses and water by exactly that; what is extracted and what is left make up what was there; the solid density of a blend is the one at which solid volumes add up. Mass, solids, volume, density and the fractions of solids follow from these.',
      ['histories', 'inputs'],
      'every material, every history of slurry operations on any number of packages, incl. slurries without solids or without water',
      'The tests do each operation once on one or two fixed materials, mostly on the mass.',
      [SLURRY], [('MaterialPackage.__add__/extract/__mul__/clear/clone', SLURRY)],
      ['size_class_masses', 'H2O_mass', 'solid_density', 'get_volume', 'get_density']),
    P('M04', 'Packages with energy conserve mass and energy through every operation',
      'The enthalpy of a package is always that of its compounds at its temperature. Creating, adding (of packages of the same or another material, or of a compound at the temperature of the package or another one), scaling, extracting (a mass, some or all of a compound, the compounds of a material), setting temperature, pressure or enthalpy, clearing and cloning change masses, pressure and energy by exactly what was added or taken; whatever temperature results is the one at which content and energy agree. Amounts, elements and assays follow from the masses. Operations change nothing but the package they are applied to and are refused, without effect, when they make no sense. A material is what its definition file says (compounds, assays, custom properties), and an assay added to it can be used to create packages like any other.',
      ['histories', 'inputs'],
      'every material, every history of operations on any number of packages, at any temperature and size, empty packages included',
      'The tests do each operation once on one package; energy balances of chains of operations, small or empty packages and different materials are not sampled.',
      [THERMO], [('MaterialPackage', THERMO), ('_calculate_H, _calculate_T', THERMO)],
      ['H', 'T', 'P', 'get_compound_mass', 'get_element_masses', 'extract']),
    P('M05', 'Streams with energy, coal included, conserve mass and energy through every operation',
      'The enthalpy flow rate of a stream is always that of its compounds at its temperature; of a coal stream, that of its ash plus that of its dry ash free part, which follows from its elements and heating value. Creating, adding, scaling, extracting, setting temperature, pressure or enthalpy flow rate, clearing and cloning change mass flow rates, pressure, energy and heating value by exactly what was added or taken; whatever temperature results is the one at which content and energy agree. Operations change nothing but the stream they are applied to and are refused, without effect, when they make no sense. A material is what its definition file says (compounds, assays, custom properties), and an assay added to it can be used to create streams like any other.',
      ['histories', 'inputs'],
      'every material, every history of operations on any number of streams, at any temperature and size, empty streams included',
      'The tests do each operation once on one stream; energy balances of chains of operations and coal are not sampled.',
      [THERMO], [('MaterialStream', THERMO), ('_calculate_Hfr, _calculate_Hfr_coal, _calculate_T, _update_HHV', THERMO)],
      ['Hfr', 'T', 'P', 'HHV', 'get_compound_mfr', 'get_element_mfrs', 'extract']),
    P('M06', 'A package operation changes only the package it is applied to',
      'Adding, scaling, cloning and querying leave their operands exactly as they were; extracting, clearing and adding in place change only the package they are called on; packages and copies never share content, so that a later change to one is never seen in another; and no package operation changes the material or its assays.',
      ['histories'],
      'every history of operations on any number of packages of any materials',
      'Aliasing only shows when a result is used further; the tests look at one result at a time.',
      [CHEM, PSD, SLURRY, THERMO], [('MaterialPackage', CHEM), ('MaterialPackage', PSD), ('MaterialPackage', SLURRY), ('MaterialPackage, MaterialStream', THERMO)],
      ['compound_masses', 'size_class_masses', 'assays']),
    P('M07', 'A package operation that makes no sense is refused and changes nothing',
      'Adding a package or a component that the receiving material does not have, extracting more than there is, scaling by a negative factor, operands of another type, unknown assays, and assays of the wrong length or with a name that is taken, are refused with an error that leaves every package and material as it was. Everything that does make sense, including taking all or nothing, succeeds.',
      ['histories', 'inputs'],
      'every operation on every package, at every limit (nothing, exactly everything, more than everything)',
      'The tests check a few refusals but never that nothing changed.',
      [CHEM, PSD, SLURRY, THERMO], [('MaterialPackage', CHEM), ('MaterialPackage', PSD), ('MaterialPackage', SLURRY), ('MaterialPackage, MaterialStream', THERMO), ('Material.add_assay', SLURRY)],
      ['exceptions', 'compound_masses', 'size_class_masses', 'assays']),
    P('M08', 'A material is exactly what its definition file says',
      'Reading a material file gives the components in the order of the file, every named assay with the value of its column for every component (and its solid density and water for slurries, and its custom properties for materials with energy) however the columns are spaced, and the sorted elements of the compounds; files that are not material definitions are rejected. Assay totals are the sums of the assays; an added assay becomes available as given and changes no other.',
      ['inputs'],
      'every definition file: any components, any number of assays, any spacing, blank lines',
      'The tests read the sample files only.',
      [CHEM, PSD, SLURRY, THERMO], [('Material.__init__', THERMO), ('Material.__init__', CHEM), ('Material.__init__', PSD), ('Material.__init__', SLURRY)],
      ['compounds', 'size_classes', 'assays', 'get_assay_total', 'create_empty_assay']),
    P('M09', 'A printed material or package shows what it holds',
      'The text of a package or stream (str) names its material and shows its mass, amount, conditions, energy and heating value as far as it has them, and for each compound or size class of its material, in order, what is held of it and which fraction that is, and its custom properties; the text of a material lists every component with its value in every assay, the totals, and the custom properties, each under the right heading. The numbers are those the object gives when asked, to the digits shown. (For names and numbers that fit their columns.)',
      ['inputs', 'histories'],
      'every material and every package or stream of any kind, whatever was done to it',
      'The tests only print objects and never look at the text.',
      [CHEM, PSD, SLURRY, THERMO], [('Material.__str__, MaterialPackage.__str__', CHEM), ('__str__', PSD), ('__str__', SLURRY), ('__str__ of Material, MaterialPackage, MaterialStream', THERMO)],
      ['str()']),
    P('T01', 'Heat capacity, enthalpy, entropy and Gibbs energy of a phase agree with each other and with its data',
      'For every phase and temperature, enthalpy and entropy are their reference values plus the integrals of Cp and Cp/T over the heat capacity records (and of a constant Cp beyond the last one) without a jump where records meet, plus the magnetic contribution if the phase has magnetic data, and the Gibbs energy is H - T*S. The functions per mass give the same values converted to kWh, degrees Celsius and kg. An unknown compound or phase is an error.',
      ['inputs'],
      'every phase of every compound, shipped or user defined, with any number of records and any exponents; every temperature and mass',
      'The tests evaluate one phase at one temperature inside its first record; record limits, extrapolation, logarithmic terms and magnetism are not sampled.',
      [TCHEM], [('CpRecord.Cp/H/S', TCHEM), ('Phase.Cp/H/S/G and _mag', TCHEM), ('Cp, H, S, G', TCHEM)],
      ['Compound.Cp/H/S/G', 'thermochemistry.Cp/H/S/G']),
    P('T02', 'The compound library is exactly what the loaded files say',
      'After loading a directory of auxi or FactSage files the library holds exactly the compounds of that directory, with the phases and data of their files and nothing left of what was loaded before; writing a compound to a directory replaces the file of that compound only, changes nothing in memory, and loading it later gives the same data back, magnetic data included. The listing, the literature references and the text of a phase agree with the data.',
      ['histories', 'inputs'],
      'every set of data files, every history of loading and writing',
      'The tests load the default directory once and count the compounds.',
      [TCHEM], [('load_data_auxi, load_data_factsage, write_compound_to_auxi_file', TCHEM)],
      ['compounds', 'list_compounds', 'get_phase_list', 'get_reference']),
    P('C01', 'An object written to a file and read back is the same object',
      'Any auxi object (clock, chart of accounts, ledger with its transactions, business model before and after runs, variable, material, package or stream, thermochemical compound, physical property model) can be written to a file and read back; what comes back looks the same through its public interface, and from then on does the same whatever is done to it, including together with other objects and after being written again. Writing changes nothing, a file holds what was written at that moment, and what happens to an object never changes another object or a file.',
      ['histories', 'inputs'],
      'every kind of object, every history of using, writing and reading back any number of objects and files',
      'The tests write one plain object and read it back; objects that reference each other, text and numbers of any shape, and what a read object does afterwards, are not sampled.',
      [OBJ, TIME, DES, MODELS, CHEM, PSD, SLURRY, THERMO, TCHEM, 'auxi/tools/materialphysicalproperties/core.py'],
      [('Object.write/read/__str__', OBJ), ('_init hooks of all classes', OBJ)],
      ['write', 'read', 'public attributes and methods of every class']),
    P('F01', 'Ideal gas models follow the ideal gas law',
      'At every temperature above absolute zero the thermal expansion coefficient of an ideal gas is 1/T, and its density is the molar mass times P/(R*T), with the molar mass given, or the mole fraction weighted sum of the molar masses of the components of a mixture.',
      ['inputs'], 'every temperature, pressure, molar mass and composition',
      'The tests evaluate each model at one point.',
      [IDEAL], [('BetaT, RhoT, RhoTP, RhoTPx', IDEAL)], ['calculate', '__call__']),
    P('F02', 'Properties of gas mixtures follow the mixing rules from those of the pure gases',
      'The viscosity of a gas mixture is that of Wilke or of Herning and Zipperer, and its heat capacity the mass weighted mean, of the properties of the pure gases at the same temperature; components without data are left out and only the ratios of the others matter; a pure gas has its own properties; outside the temperature range of a component the mixture is refused.',
      ['inputs'], 'every mixture of gases, known or not, in any amounts and order, at every temperature',
      'There are no tests of the mixing rules.',
      [GASES], [('WilkeMuTx, HerningZippererMuTx, IdealCpTx', GASES)], ['calculate', '__call__', 'materials']),
    P('F03', 'Slag viscosities follow the models of Urbain and Riboud',
      'The viscosity of a slag is that of the model of Urbain or Riboud for its temperature and composition, given in mole or in mass fractions; only the ratios of the components the model counts matter, and oxides given by a formula with two cations count as two of the oxide with one.',
      ['inputs'], 'every slag composition, in mole and mass fractions of any sum, at every temperature',
      'There are no tests of the slag models.',
      [SLAGS], [('UrbainViscosityTx/Ty, RiboudViscosityTx/Ty', SLAGS)], ['calculate', '__call__']),
    P('F04', 'Data sets are what their files say and fitted models follow their data',
      'A data set holds the headings, units, symbols and numbers of its file. A polynomial model fitted to it is the least squares polynomial of the degree asked for, carries the names and units of the data set, is valid exactly between the lowest and highest temperature of the data (limits included) and refuses everything else. A polynomial model has the value of its polynomial. The shipped models reproduce the data they were fitted to. A template is a readable data set of the material it was made for.',
      ['inputs'], 'every data set file, every property of it, every degree, every temperature',
      'The tests fit one property of the template and evaluate it at a few points.',
      [MPC, POLY], [('DataSet', MPC), ('PolynomialModelT.create, calculate', POLY)], ['DataSet attributes', 'calculate', 'state_schema']),
    P('F05', 'Heat capacity and enthalpy of coal follow Merrick and agree with each other',
      'The heat capacity and enthalpy of dry ash free coal are those of the model of Merrick for its composition and temperature; the heat capacity is the slope of the enthalpy.',
      ['inputs'], 'every composition and temperature',
      'There are no tests of the coal models.',
      [COALS], [('DafCpTy, DafHTy', COALS)], ['calculate', '__call__']),
    P('F06', 'A property model is a function of a valid state',
      'Every property model accepts exactly the states its schema describes (all fields, nothing else, of the right type and within their limits), refuses all others with an error, gives the same value whenever and however it is asked, and changes nothing it is given. A material gives the values of its own models, thermal diffusivity and kinematic viscosity follow from the others, and properties it has no model of are an error. The shipped materials have their own names and follow the data shipped for them.',
      ['inputs', 'histories'], 'every model, every state, valid or not, every order of calls, every set of property models',
      'The tests call a few models with one valid and one invalid state.',
      [MPC, MATCORE, GASES, LIQUIDS], [('Model.calculate, state_schema', MPC), ('Material.alpha, nu', MATCORE), ('materials', GASES), ('h2o', LIQUIDS)],
      ['calculate', '__call__', 'Material attributes']),
    P('N01', 'Natural convection uses the correlation of the region a surface is in',
      'The Nusselt number and heat transfer coefficient, local and average, of an isothermal flat surface are those of the correlation that the map of angles (from the vertical, -90 to 90 degrees) and Rayleigh numbers assigns to it, for gases and liquids, hot and cold surfaces, with the properties of the fluid at the temperatures the method prescribes and gravity reduced for inclined surfaces; a query never depends on earlier ones, and is refused outside the angles or the temperature range of the fluid. A region contains exactly the points within its limits, each included or excluded as asked.',
      ['inputs', 'histories'], 'every fluid, angle, length, pair of temperatures and order of queries; every region and point',
      'The tests evaluate one vertical surface in air once.',
      [NATCONV, DIMLESS], [('IsothermalFlatSurface', NATCONV), ('IsothermalFlatSurface.Region', NATCONV)],
      ['Nu_x', 'Nu_L', 'h_x', 'h_L', 'contains_point']),
    P('N02', 'Dimensionless quantities follow their definitions and constants agree with each other',
      'The Grashof, Prandtl, Reynolds, Rayleigh, Nusselt and Sherwood numbers have the values of their definitions for all arguments, with Ra = Gr*Pr at standard gravity; the physical constants have their defined values, and those that derive from others agree with them.',
      ['inputs'], 'all arguments of any magnitude and sign; all constants',
      'The tests evaluate each number at one point; constants are not tested.',
      [DIMLESS, CONST], [('Gr, Pr, Re, Ra, Nu, Sh', DIMLESS), ('constants', CONST)],
      ['Gr', 'Pr', 'Re', 'Ra', 'Nu', 'Sh', 'physicalconstants']),
    P('N03', 'Friction factors, hydraulic diameters and pressure drops follow their equations',
      'The friction factors of laminar flow, of turbulent flow in smooth ducts and of Haaland have the values of their equations, that of Colebrook solves its equation, hydraulic diameter and pressure drop follow their definitions, at every Reynolds number, roughness and size; a warning is printed exactly if the conditions are outside the validity of the equation of Haaland and warnings are wanted, and does not change the value.',
      ['inputs'], 'all Reynolds numbers, roughnesses, diameters and flows',
      'There are no tests of the duct flow functions.',
      [DUCT], [('f_l, f_ts, f_tr_Haaland, f_tr_Colebrook, D_h, \u0394p', DUCT)],
      ['f_l', 'f_ts', 'f_tr_Haaland', 'f_tr_Colebrook', 'D_h', '\u0394p']),
    P('A01', 'Supporting objects hold what they were given, each for itself',
      'Projects, variables, variable groups and process models hold the name, description and values they were given or that were set last; calling a variable or group gives its present value; every process model has parameters, input variables and output variables of its own (of the kinds its class defines), shared with no other, and the run of a base model does nothing; objects made alike have the same hash. A bibliography holds exactly the entries of its BibTeX file, of every entry type, with type and fields, and raises an error for any other key. A date given as text is that date, or an error if there is no such date; a path relative to a module is resolved from the directory of the module.',
      ['histories', 'inputs'],
      'every history of making and changing projects, variables and process models; every BibTeX file of entries, strings and comments; every date text and relative path',
      'The tests construct each of these objects once; none of them changes one and looks at another, or reads a bibliography other than the shipped one.',
      [BIB, HELP, MCORE, PCORE], [('Database', BIB), ('get_date, get_path_relative_to_module', HELP), ('Project, Variable, VariableGroup', MCORE), ('Model', PCORE)],
      ['name', 'description', 'value', 'units', 'category', '__call__', 'parameters', 'input_variables', 'output_variables', 'Database.__getitem__', 'get_date', 'get_path_relative_to_module']),
]
NOT_APPLICABLE = []
