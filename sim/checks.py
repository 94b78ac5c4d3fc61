CHECKS = {
 'C02': dict(module='w_ops', title='ops', runs=24000, limit=110),
 'C04': dict(module='w_ops', title='red', runs=24000, limit=110),
 'C01': dict(module='w_prog', title='programs', runs=24000, limit=110),
 'C06': dict(module='w_prog', title='blocking', runs=24000, limit=110),
 'C03': dict(module='w_move', title='moves', runs=24000, limit=110),
 'C11': dict(module='w_layers', title='layers', runs=9000, limit=110, technique='seeded search over layer geometries, pass sequences and schedules against float64 automatic differentiation'),
 'C12': dict(module='w_layers', title='attention', runs=9000, limit=110, technique='seeded search over attention geometries, masks, pass sequences and schedules against float64 automatic differentiation'),
 'C13': dict(module='w_layers', title='losses', runs=12000, limit=110, technique='seeded search over score and label tensors, evaluation sequences and schedules against float64 references'),
 'C14': dict(module='w_optim', title='optimizers', runs=12000, limit=110, technique='seeded search over hyperparameters, gradient sequences and schedules against the published recurrences in float64'),
 'C15': dict(module='w_optim', title='state', runs=9000, limit=110, technique='seeded search over interruption points, storage faults, torn files and schedules; resumed against uninterrupted training'),
 'C17': dict(module='w_layers', title='models', runs=4500, limit=130, technique='seeded search over model geometries, pass sequences and schedules against reference networks in float64'),
 'C16': dict(module='w_train', title='training', runs=4500, limit=110, technique='seeded search over models, batches, optimizers and schedules against plain sequential training in float64'),
 'C10': dict(module='w_randn', title='random', runs=24000, limit=110, technique='seeded search over seeds, sub-arrays, tilings and schedules against the whole array generated at once'),
 'C09': dict(module='w_reject', title='rejection', runs=24000, limit=110, technique='seeded search over operands made not to fit in one place, with work in flight, under a runtime that counts every submission'),
 'C05': dict(module='w_same', title='same', runs=18000, limit=110, technique='metamorphic re-runs: one program under two schedules, memory layouts and undefined contents, with watched task accesses'),
 'C08': dict(module='w_life', title='lifetime', runs=12000, limit=110, technique='seeded search over programs and objects dropped while their work is in flight, over several sessions, under a runtime that tracks every data handle'),
 'C07': dict(module='w_fail', title='failures', runs=18000, limit=110, technique='fault injection: task submissions, data accesses, copies, start-up and allocations fail at random places of operations, programs, passes and steps'),
 'C20': dict(module='w_cuda', title='gpu kernels', gpu=True, runs=6000, limit=110, technique='seeded search over workloads, their placement on CPU and GPU workers and the order of GPU threads against float64 references', note="Seeded search, not exhaustive. The repository's CUDA kernels, CUDA codelets and all code above them run; the CUDA compiler is replaced by a source transformation to C++, the device, its driver and cuBLAS by an emulator that runs GPU threads in seeded orders (warps in step between volatile accesses), StarPU by the simulator. Trusts the emulator's rendering of the CUDA and cuBLAS contracts; floating point is that of the host."),
 'C21': dict(module='w_gpu', gpu=True, title='gpu modes', runs=9000, limit=110, technique='seeded search over geometries, pass sequences, placements and schedules on simulated GPUs against float64 references', note="Seeded search, not exhaustive. Real NNTile Python layers and models, tensor operations, task submission, CUDA codelets and CUDA kernels run; StarPU, the GPU and cuBLAS are simulated (host floating point, half precision rounded as the types demand)."),
 'C18': dict(module='w_tile', title='tiles', shim=True, runs=60000, limit=110, technique='seeded search over tile operations, dependent call chains, operands that do not fit and schedules against whole-array definitions'),
}
