ORA='Trusts the independent oracle (Montgomery arithmetic cross-checked against big integers, Grain parameters generated from the published procedure), the compiler and the halo2curves field; judged only on the executions run.'
C={
'B01':('runtime differential monitor (random/steered workload vs independent reference)','Every judged call is compared with the reference. '+ORA),
'B02':('runtime differential monitor (message/capacity workload vs reference sponge)','Every judged call is compared with the reference. '+ORA),
'B03':('runtime differential monitor (state-steering workload vs reference permutation)','Every judged permutation is compared with the reference; states that make inner words extreme are constructed by inverting rounds. '+ORA),
'B04':('runtime value monitor over fresh processes with random and concurrent first-use orders','All table entries compared (finite, complete); first-use orders are sampled. '+ORA),
'B05':('runtime differential monitor (parameter generation for many specs vs reference Grain)','Specs are sampled over 20 fields. '+ORA),
'B06':('runtime differential monitor (generic sponge over fields, widths, rates vs reference)','Shapes and messages are sampled. '+ORA),
'B07':('history monitor, first-use race monitor over recorded event logs','Operations are judged against the pure reference whatever the history; interleavings are sampled, not enumerated. '+ORA),
'B08':('runtime cross-configuration monitor (8 builds, logs compared)','Same workload in each build. '+ORA),
'B09':('runtime injectivity monitor over recorded digests of neighbouring inputs','Collisions are looked for among inputs generated and their edits.'),
 'B10':('runtime differential monitor over user-supplied parameter sets, tiny fields state by state','Constant sets are sampled (13 to 2^64 sized fields, 0..90 partial rounds); states of fields 13 and 31 exhaustive for the first sets.'),
}
NA={}
NOTES='See DESIGN.md. No hooks in /repo.'

ORC='The crate is built unchanged over a recording stand-in for halo2_proofs (no network); the stand-in evaluates gates, lookups and copies. '+ORA
C.update({
'C01':('runtime constraint monitor over the recorded synthesis of generated tables','Every constraint is evaluated on every synthesized table; tables are sampled. '+ORC),
'C02':('runtime trace monitor: exposed table rows vs a model computed with the reference hash','Every cell of the six exposed columns is compared. '+ORC),
'C03':('fault injection on recorded witnesses with re-derivation, judged by a monitor of shown digests','Forgeries change one class of cells and re-derive the rest; coordinated forgeries beyond that are sampled only. '+ORC),
'C04':('fault injection on framing (tables, controls, flags) judged by a framing monitor; builder refusal monitor','As C03. '+ORC),
'C05':('runtime differential monitor of the recorded fixed part across tables','Pairs of tables are sampled. '+ORC),
'C06':('schedule-perturbing runtime monitor: recorded parallel synthesis vs serial','Worker counts and orders are sampled; workers also run on real threads. '+ORC),
'C07':('history monitor against a model of the table builder','Histories are sampled. '+ORC),
'C08':('fault injection on expected digests, outcome monitor','Positions and values are sampled. '+ORC),
'C09':('runtime differential monitor of chip outputs plus witness fault injection','As C03, on the permutation chips alone. '+ORC),
'C10':('runtime differential monitor of in-circuit sponge outputs plus witness fault injection','As C03, on the sponge gadget alone. '+ORC),
'C11':('runtime resource monitor (rows reached under a hard row limit)','Tables and capacities are sampled; the raw build is a recorded finding. '+ORC),
'C12':('fault injection on the reserved rows','As C03. '+ORC),
'C13':('runtime cross-build monitor of what each switch selects','Seven builds; circuits in each are sampled; two recorded findings. '+ORC),
 'C14':('recording monitor of composed circuits, with true and false lookups','Circuits sampled: 1 to 3 tables, both chips, eight steps. '+ORC),
})
C.update({
'C15':('runtime outcome monitor of tables around the capacity','Tables and capacities are sampled. '+ORC),
'C16':('fault injection: each operation of a recorded synthesis refused, outcome monitor','Every operation of small syntheses, a spread of larger ones. '+ORC),
'C17':('history and concurrency monitor over recorded assignments (alone, in company, after failures)','Orders and interleavings are sampled. '+ORC),
'C18':('runtime differential monitor of recorded gadget layouts across witnesses','Programs and witnesses are sampled. '+ORC),
'C19':('runtime constraint and trace monitor over user-defined fields','Ten fields, random constants; tables are sampled. '+ORC),
'C20':('runtime constraint and re-derivation monitor under varied floor planners','Circuits and region placements (gaps, order, one or two passes) are sampled. '+ORC),
'C21':('runtime constraint and re-derivation monitor in callers\' own layouts','Layouts (offsets, columns, sharing) and states are sampled. '+ORC),
})
NOTES='See DESIGN.md. No hooks in /repo; three fix: commits (8c7988f, 0b2c038, f4c46c1). known_findings.txt lists the defects not repaired.'
