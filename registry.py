"""Which models, drivers and trace specifications decide which property."""
ASSUMPTIONS = [
    'TLC and the CommunityModules evaluate TLA+ correctly',
    'the harness records what the real code did (calls, public attributes, exported solver models)',
    'bounded: exhaustive on the small configurations of the model, sampled beyond them',
]
LOOP_MC = {'quick': [('LoopMC', 'LoopMC.cfg')], 'thorough': [('LoopMC', 'LoopMC_thorough.cfg')]}
LOOP = {'driver': 'drv_loop', 'trace': 'LoopTrace', 'gen': {'quick': ('LoopMC', 'LoopGen.cfg')},
        'budget': {'quick': 30, 'thorough': 600}}

BDR_MC = {'quick': [('BdrMC', 'BdrMC.cfg')], 'thorough': [('BdrMC', 'BdrMC_thorough.cfg')]}
BDR = {'driver': 'drv_bdr', 'trace': 'BdrTrace', 'budget': {'quick': 60, 'thorough': 1200}}
BDRG = dict(BDR, gen={'quick': ('BdrMC', 'BdrGen.cfg')})

TREE = {'driver': 'drv_tree', 'trace': 'TreeTrace', 'budget': {'quick': 150, 'thorough': 1500}}

CHECKS = {
    'C01': {'mc': LOOP_MC, 'drivers': [LOOP]},
    'C02': {'mc': LOOP_MC, 'drivers': [LOOP]},
    'C03': {'mc': LOOP_MC, 'drivers': [LOOP]},
    'C06': {'mc': {'quick': [('StatMC', 'StatMC.cfg')], 'thorough': [('StatMC', 'StatMC_thorough.cfg')]},
            'drivers': [{'driver': 'drv_stat', 'trace': 'StatTrace'}]},
    'C08': {'mc': {'quick': [('FeedbackMC', 'FeedbackMC.cfg')], 'thorough': [('FeedbackMC', 'FeedbackMC_thorough.cfg')]},
            'drivers': [{'driver': 'drv_feedback', 'trace': 'FeedbackTrace'}]},
    'C07': {'mc': {'quick': [('TunerMC', 'TunerMC.cfg'), ('TunerMC', 'TunerLate.cfg')],
                   'thorough': [('TunerMC', 'TunerMC_thorough.cfg'), ('TunerMC', 'TunerLate_thorough.cfg')]},
            'drivers': [{'driver': 'drv_tuner', 'trace': 'TunerTrace', 'gen': {'quick': ('TunerMC', 'TunerGen.cfg')}}]},
    'C09': {'mc': BDR_MC, 'drivers': [BDRG]},
    'C10': {'mc': BDR_MC, 'drivers': [BDRG]},
    'C11': {'mc': BDR_MC, 'drivers': [BDR]},
    'C12': {'mc': BDR_MC, 'drivers': [BDR]},
    'C13': {'mc': BDR_MC, 'drivers': [BDRG]},
    'C14': {'mc': BDR_MC, 'drivers': [BDR]},
    'C15': {'mc': BDR_MC, 'drivers': [BDR]},
}
TREE_MC = {'quick': [('TreeMC', 'TreeMC.cfg'), ('TreeMC', 'TreeMC2.cfg')], 'thorough': [('TreeMC', 'TreeMC_thorough.cfg'), ('TreeMC', 'TreeMC2_thorough.cfg')]}
CERT_MC = {t: TREE_MC[t] + [('TreeMC', c)] for t, c in (('quick', 'TreeCert.cfg'), ('thorough', 'TreeCert_thorough.cfg'))}
for _p in ('C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C28'):
    CHECKS[_p] = {'mc': CERT_MC if _p in ('C21', 'C28') else TREE_MC,
                  'drivers': [dict(TREE, gen={'quick': ('TreeMC', 'TreeGen.cfg')}) if _p in ('C19', 'C21', 'C24') else TREE]}

CHECKS['C26'] = {'mc': {'quick': [('PrepMC', 'PrepMC.cfg')], 'thorough': [('PrepMC', 'PrepMC_thorough.cfg')]},
                 'drivers': [{'driver': 'drv_prep', 'trace': 'PrepTrace', 'budget': {'quick': 100, 'thorough': 1200}}]}

CHECKS['C27'] = {'mc': {'quick': [('PrepMC', 'PrepMC.cfg')], 'thorough': [('PrepMC', 'PrepMC_thorough.cfg')]},
                 'drivers': [{'driver': 'drv_exp', 'trace': 'ExpTrace', 'budget': {'quick': 100, 'thorough': 1200}}]}

CHECKS['C04'] = {'mc': {'quick': [('LabelsMC', 'LabelsMC.cfg')], 'thorough': [('LabelsMC', 'LabelsMC_thorough.cfg')]},
                 'drivers': [{'driver': 'drv_labels', 'trace': 'LabelsTrace', 'gen': {'quick': ('LabelsMC', 'LabelsGen.cfg')},
                              'budget': {'quick': 90, 'thorough': 1200}}]}

CHECKS['C05'] = {'mc': {'quick': [('LifeMC', 'LifeMC.cfg')], 'thorough': [('LifeMC', 'LifeMC_thorough.cfg')]},
                 'drivers': [{'driver': 'drv_life', 'trace': 'LifeTrace', 'gen': {'quick': ('LifeMC', 'LifeGen.cfg')},
                              'budget': {'quick': 150, 'thorough': 1500}}]}

SYS = {'driver': 'drv_sys', 'trace': 'SysTrace', 'budget': {'quick': 100, 'thorough': 1500}}
SYS_MC = {'quick': [('SysMC', 'SysBdr.cfg'), ('SysMC', 'SysTree.cfg')],
          'thorough': [('SysMC', c) for c in ('SysBdr.cfg', 'SysBdrDeep.cfg', 'SysTree.cfg', 'SysTreeHeur.cfg', 'SysTreeDeep.cfg')]}
CHECKS['C29'] = {'mc': SYS_MC, 'drivers': [dict(SYS, all=True)]}
for _p in ('C01', 'C02', 'C03', 'C15', 'C28'):
    CHECKS[_p] = dict(CHECKS[_p], drivers=CHECKS[_p]['drivers'] + [SYS])

CHECKS['C30'] = {'mc': {'quick': [('ArgsMC', 'ArgsMC.cfg'), ('ArgsMC', 'ArgsCalls.cfg')],
                        'thorough': [('ArgsMC', 'ArgsMC_thorough.cfg'), ('ArgsMC', 'ArgsCalls_thorough.cfg')]},
                 'drivers': [{'driver': 'drv_args', 'trace': 'ArgsTrace', 'gen': {'quick': ('ArgsMC', 'ArgsGen.cfg')},
                              'budget': {'quick': 90, 'thorough': 1200}}]}

NOTES = {}
