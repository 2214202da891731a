SMC = 'fbs/samplers/smc.py'
SAMP = ('Existing tests run one linear-Gaussian model with a fixed seed and compare Monte Carlo averages within a loose '
        'tolerance; ')
prop('C01', 'Bootstrap filter implements filtering recursion and likelihood estimate',
     'For every state-space model, the bootstrap filter weights each particle with the likelihood of the next observation '
     'given that particle, resamples from the transition-propagated particles with those normalised weights, and returns '
     'exactly the path (or last set) of particles so obtained. The reported negative log-likelihood is the sum over steps '
     'of minus the log of the mean unnormalised weight. Every random draw uses its own independent key.',
     ['inputs', 'programs'], ALL_SIZES,
     SAMP + 'an off-by-one in the observation/time pairing, a reused key or a dropped keyword argument stays within it.',
     [SMC], [('bootstrap_filter', 'fbs/samplers/smc.py')],
     'Both output modes, with and without keyword arguments; only the log-weight mode.', ['returned particles', 'returned nll'])
prop('C02', 'Backward smoother draws from the backward kernel of the filter particles',
     'Given filtering particles, the backward smoother draws the terminal state uniformly from the last set and then, going '
     'backwards, draws each state from the particles of its own time with probability proportional to the transition density '
     'to the already drawn next state, evaluated at the time and observation of the earlier step. The trajectory is returned '
     'in forward time order, and all draws use independent keys.',
     ['inputs', 'programs'], ALL_SIZES,
     SAMP + 'the smoother is used through one model where transition times and observations barely matter.',
     [SMC], [('bootstrap_backward_smoother', 'fbs/samplers/smc.py')], 'With and without keyword arguments.')
prop('C03', 'PMCMC inner filter resamples, propagates and accumulates its likelihood',
     'The inner particle filter of particle MCMC weights particles by the likelihood of the next observation, resamples '
     'ancestors with the normalised weights, and propagates the chosen ancestors through the transition. Its returned value '
     'is the final particle set with the sum of log mean unnormalised weights, with independent keys for every draw.',
     ['inputs', 'programs'], ALL_SIZES,
     'The existing test looks at a posterior mean with thousands of samples for one model.',
     [SMC], [('pmcmc_filter_step', 'fbs/samplers/smc.py')], 'With and without keyword arguments.')
prop('C04', 'Particle MCMC accepts or rejects the whole state atomically with the MH ratio',
     'One particle MCMC step proposes a fresh observation path (independent, or a correlated move around the path mean), '
     'runs the particle filter on the reversed path, and accepts with probability min(1, ratio of the likelihood estimates). '
     'On acceptance the sample, its likelihood and the path are all replaced, on rejection all three stay as they were. The '
     'reported acceptance probability, flag and likelihoods are those of this step.',
     ['inputs', 'programs', 'histories'], ALL_SIZES + '; both proposal kinds; every selected particle index',
     'Tests check posterior moments of one Gaussian model; a likelihood not carried along with its sample biases the chain '
     'far below their tolerance.',
     [SMC], [('pmcmc_kernel', 'fbs/samplers/smc.py')], 'Independent and correlated proposals, with and without keyword arguments.')
prop('C05', 'Correlated (pCN-type) proposal leaves the reference law invariant',
     'The correlated proposal is the path mean plus a shrunk deviation of the current path plus fresh, independent reference '
     'deviations, with coefficients whose squares sum to one. So it preserves the mean and covariance of the reference '
     'law for every step size.',
     ['inputs'], 'all step sizes delta > 0, paths, means and reference samplers',
     'No test varies the step size; a wrong coefficient is still a valid looking proposal.',
     [SMC], [('pcn_proposal', 'fbs/samplers/smc.py')], 'The exact coefficients are compared, for symbolic delta.')
prop('C06', 'Twisted SMC weights telescope against the twisting function',
     'Twisted SMC starts from normalised twisting weights, resamples before each proposal, and gives each particle the '
     'normalised weight transition density times new twisting value over proposal density times the twisting value of its own '
     'ancestor. All densities are evaluated at the particle, ancestor, time and observation they belong to, and every draw has '
     'its own key.',
     ['inputs', 'programs'], ALL_SIZES,
     'One test with a Gaussian target checks a mean; swapping ancestor and child twisting values at equal weights passes.',
     [SMC], [('twisted_smc', 'fbs/samplers/smc.py')], 'With and without keyword arguments.')
CS = 'fbs/samplers/csmc/csmc.py'
prop('C07', 'Conditional SMC forward pass keeps the reference trajectory pinned',
     'In the conditional SMC forward pass the reference state sits at its reference index at every time, ancestors come from '
     'conditional resampling given the reference indices of the current and next time, and the weights of each time are the '
     'normalised likelihoods of the observation of that time given the ancestors. All ancestors, log weights and particles '
     'are returned aligned in time, with independent keys for all draws.',
     ['inputs', 'programs', 'histories'], ALL_SIZES + '; every reference trajectory and reference indices',
     'Tests use 2 models, a fixed reference index of zero and statistical tolerances.',
     [CS], [('forward_pass', CS)], 'With and without keyword arguments.')
prop('C08', 'Conditional SMC backward passes trace valid trajectories',
     'The scanning pass draws one terminal particle by weight and follows its recorded ancestors back to time zero. The '
     'sampling pass draws every index by forward weight times transition density to the already drawn next state, evaluated '
     'at the earlier time and observation. Both return the states found at the returned indices, in forward order.',
     ['inputs', 'programs', 'histories'], ALL_SIZES + '; every ancestor table and weight history',
     'Trajectories that mix lineages still have the right marginals in the tests.',
     [CS], [('backward_scanning_pass', CS), ('backward_sampling_pass', CS)],
     'The observation factor of the transition to the drawn state is the caller\'s responsibility and not claimed.')
prop('C09', 'Conditional SMC kernel composes forward pass and selected backward pass',
     'The conditional SMC kernel runs the forward pass on the given reference and, with an independent key, the backward pass '
     'that was asked for (sampling or scanning) on exactly that pass\'s ancestors, weights and particles, returning the new '
     'trajectory with its indices.',
     ['inputs', 'programs', 'configurations'], ALL_SIZES + '; both backward modes',
     'Tests run each mode once with tolerances that hide a swapped argument.',
     [CS], [('csmc_kernel', CS)], 'Both backward modes, with and without keyword arguments.')
prop('C10', 'Forced-move selection is a valid Metropolised index draw',
     'The forced-move step proposes an index different from the current one with probability proportional to its weight, '
     'accepts with min(1, (1 - current weight) / (1 - proposed weight)), and otherwise keeps the current index. The reported '
     'average acceptance is the expectation of that probability, clipped to [0, 1]; a weight numerically equal to one '
     'falls back to a uniform proposal.',
     ['inputs'], 'all normalised weight vectors of any length and every current index',
     'No test checks it for degenerate weights or compares the reported acceptance.',
     ['fbs/samplers/gibbs.py'], [('force_move', 'fbs/samplers/gibbs.py')], 'Symbolic weights and index.')
RS = 'fbs/samplers/resampling.py'
CR = 'fbs/samplers/csmc/resamplings.py'
prop('C11', 'Unconditional resampling schemes follow their ancestor laws',
     'Systematic, stratified, multinomial and killing resampling return for any weights the ancestor indices of their '
     'defining law: inverse-CDF indices at one shared, one-per-stratum or sorted uniform points, and keep-or-redraw in '
     'proportion to the largest weight. Indices stay in range, and independent uniforms use independent keys.',
     ['inputs'], 'all weight vectors of any length, all keys',
     'Tests check unbiasedness on a few random weight vectors of fixed length.',
     [RS], [('systematic, stratified, multinomial, killing', RS)], 'Four schemes.')
prop('C12', 'Conditional resampling keeps the reference lineage',
     'Conditional multinomial and killing resampling always give the reference slot the reference ancestor, and draw the other '
     'ancestors from the scheme\'s own conditional law, including the random rotation that places the reference. Without '
     'conditioning they, and the systematic scheme, reduce to the plain scheme with the same weights.',
     ['inputs', 'configurations'], 'all weight vectors, all reference ancestor/slot pairs, conditional or not',
     'Tests count frequencies for a few weight vectors and fixed slots.',
     [CR], [('multinomial, killing, systematic', CR)],
     'Conditional systematic resampling is not claimed (its conditional rotation law has no closed normal form here).')
GB = 'fbs/samplers/gibbs.py'
prop('C13', 'Gibbs kernel runs conditional SMC on a fresh time-reversed path',
     'One Gibbs step simulates the joint forward path from the current sample and data with its own key, reverses both parts in '
     'time (optionally replacing the observation part by a bridge between its end points), runs conditional SMC with that '
     'path as reference, and selects the new sample by backward tracing or by a forced move followed by a fresh forward '
     'path and uniform reference indices. It returns the end of the new trajectory, the trajectory, its indices and which '
     'indices moved.',
     ['inputs', 'programs', 'configurations', 'histories'], ALL_SIZES + '; all eight flag combinations',
     'Tests run one flag combination on a Gaussian model and compare a mean.',
     [GB], [('gibbs_kernel', GB)], 'All flag combinations, with and without keyword arguments.')
prop('C14', 'Gibbs initialisation builds its first sample from a filter run on the same data',
     'Gibbs initialisation simulates a forward path from the given start (or zero), reverses its observation part (or the '
     'bridge through its end points), runs the bootstrap filter on it and takes the first sample and trajectory either from '
     'the last filter particle with a fresh forward path or from the backward smoother. All stages share the observation '
     'path and use independent keys.',
     ['inputs', 'programs', 'configurations'], ALL_SIZES + '; both methods, bridge or not, start given or not',
     'Only one configuration is ever executed by the tests.',
     [GB], [('gibbs_init', GB)], 'All configurations, with and without keyword arguments.')
LN = 'fbs/sdes/linear.py'
prop('S01', 'Closed-form moments of the linear SDEs solve their own moment equations',
     'For the constant, linear-schedule and exponential-schedule stationary SDEs, drift and dispersion are the documented '
     'coefficient functions. Wherever closed-form conditional mean and variance are offered they equal the exact moments and '
     'satisfy the mean and variance evolution equations of the same object\'s drift and dispersion.',
     ['inputs', 'configurations'], 'all parameters, times, states of any shape',
     'Tests sample a few time points for single parameter values.',
     [LN], [('StationaryConstLinearSDE, StationaryLinLinearSDE, StationaryExpLinearSDE', LN)],
     'Derivatives are taken symbolically on the value graph.')
prop('S02', 'Linear SDE discretisation is exact and composes over any time grid',
     'The discretised transition coefficient and variance between any two times equal the exact ones of the SDE: they satisfy '
     'the moment equations of the SDE\'s own drift and dispersion, start from identity and zero variance, and transitions '
     'over consecutive intervals compose to the transition over their union.',
     ['inputs', 'configurations'], 'all parameters, all pairs and triples of times, the three SDE families',
     'Tests compare against simulation for single settings.',
     [LN], [('make_linear_sde', LN)], 'Closed forms, ODEs, initial value and semigroup.')
prop('S04', 'Conditional scores and bridge drifts are gradients of the true log densities',
     'The conditional score offered for a linear SDE is the gradient of the log transition density in its end state. The '
     'bridge drift is the drift plus squared dispersion times the gradient of the log density of hitting the target at the '
     'final time.',
     ['inputs', 'configurations'], 'all parameters, states of any shape, times and targets',
     'Tests check one parameter setting at one point.',
     [LN], [('make_linear_sde', LN), ('bridge_drift', LN)], 'Compared with closed form and with symbolic differentiation.')

prop('S03', 'Exact forward simulation of the linear SDEs on any time grid',
     'Simulating a linear SDE forward from a given state returns, as a path, the exact Markov transitions between '
     'consecutive grid times starting at that state, with fresh independent noise per step and component; or, without '
     'path, draws from the exact marginal transition from the start time at each requested time.',
     ['inputs', 'configurations'], 'all parameters, states of any shape, grids of any length, scalar or vector times',
     'Tests simulate one grid and compare sample moments loosely.',
     [LN], [('make_linear_sde', LN)], 'Three SDE families, path and marginal modes.')
prop('S05', 'Ornstein-Uhlenbeck blocks and their score-matching loss follow the closed forms',
     'The Ornstein-Uhlenbeck discretisation, conditional score and forward simulation equal the closed-form transition '
     'law from time zero, and its training loss is the transition-variance weighted mean squared error between network and '
     'conditional score over simulated paths at ordered times in the interval, random or equidistant.',
     ['inputs', 'programs', 'configurations'], 'all parameters, batch sizes, dimensions, numbers of times, networks',
     'No test covers the loss; others use one setting.',
     [LN], [('make_ou_sde', LN), ('make_ou_score_matching_loss', LN)], 'Loss decided with the SDE blocks as uninterpreted functions.')
prop('S06', 'Score and bridge training losses equal their documented objectives',
     'The loss for learning the reverse process of a linear SDE averages over batch, time and state the squared error '
     'between the network and its target on simulated forward paths: the variance-weighted conditional score from the start, '
     'the mean-matching target, or the one-step conditional score, at ordered random or equidistant times. The memory-saving '
     'variant with the score objective uses one time per example.',
     ['inputs', 'programs', 'configurations'], 'all linear SDEs, batch sizes, numbers of times, networks; state ranks 1 and 2 '
     '(3 in the thorough tier)', 'No test evaluates the losses against their definition.',
     [LN], [('make_linear_sde_law_loss', LN)],
     'Decided with the SDE blocks as uninterpreted functions. The memory-saving variant is claimed for the score objective only.')
prop('S07', 'The Gaussian Schroedinger bridge has its closed-form marginals and drift',
     'For Gaussian end points and a Brownian reference, the returned marginal mean and covariance and the drift are those of '
     'the closed-form Schroedinger bridge: they match the end-point moments at times 0 and 1, and the drift is consistent '
     'with the cross-covariance of the static optimal coupling.',
     ['inputs'], 'all dimensions, means, covariances, diffusion coefficients, times and states',
     'Tests simulate one small example.', [LN, 'fbs/utils.py'], [('make_gaussian_bw_sb', LN)],
     'The matrix square root is an uninterpreted symmetric root (S09 decides it).')
SIM = 'fbs/sdes/simulators.py'
prop('S08', 'Numerical SDE simulators follow their recursions on any grid and direction',
     'Euler-Maruyama, the reverse-time simulator, the discrete-time simulator and the Doob bridge simulator perform the '
     'documented recursion on ascending or descending grids with any number of sub-steps: each sub-step evaluates drift and '
     'dispersion at its own time, adds independent noise scaled by the root step, starts at the given state, and ends at '
     'the last grid time; the bridge steers to the given end point and can pin it exactly.',
     ['inputs', 'programs', 'configurations'], 'all grids, sub-step counts, state shapes, drift, dispersion and score functions',
     'Tests use ascending grids with one sub-step and compare loose statistics.',
     [SIM], [('euler_maruyama, reverse_simulator, discrete_time_simulator, doob_bridge_simulator', SIM)],
     'Nested loops are compared as recurrences.')
UT = 'fbs/utils.py'
prop('S09', 'Gaussian and matrix utilities equal their definitions',
     'Discretising a linear time-invariant SDE gives the matrix-exponential transition and the matching noise covariance. '
     'The matrix root is the symmetric root from the spectral decomposition. The Bures distance and the Kullback-Leibler '
     'divergence of two Gaussians equal their closed forms.',
     ['inputs'], 'all dimensions, means, symmetric positive definite covariances and time steps',
     'Tests check a few random matrices, and the divergence only loosely.',
     [UT], [('discretise_lti_sde, sqrtm, bures_dist, kl', UT)], 'Matrix functions are uninterpreted with their algebraic laws.')
BS = 'fbs/dsb/base.py'
prop('B01', 'Iterative proportional fitting losses equal their regression objectives',
     'The discrete and continuous bridge losses simulate the current half-bridge with its own drift and noise, and return '
     'the mean squared difference between the trained drift, at the later state and time, and the increment that reverses '
     'the simulated step. The loop and the vectorised continuous losses are the same function.',
     ['inputs', 'programs'], 'all batch sizes, numbers of steps, drift and dispersion functions; state ranks 1 and 2',
     'No test evaluates these losses.', [BS], [('ipf_loss_disc, ipf_loss_cont, ipf_loss_cont_v', BS)],
     'Trajectories are compared as recurrences.')

DI, DB, DY = 'fbs/data/images.py', 'fbs/data/base.py', 'fbs/data/bayesian.py'
prop('D01', 'Restoration masks partition the image into observed and unobserved pixels',
     'For inpainting and super-resolution, the observed and the unobserved index sets of a generated mask are disjoint, '
     'have no repetition and cover the image: the hole is one square shifted along the diagonal inside the image; '
     'super-resolution keeps exactly one pixel of every block, at a position random per block or in the middle. The '
     'declared shape of the unobserved part is that of the index set.',
     ['inputs', 'configurations'], 'all keys; symbolic image sizes (multiples of the rate) plus the shipped sizes; all shifts',
     'Tests draw one mask for each task.', [DI], [('ImageRestore.gen_mask, unobs_shape', DI)],
     'Index sets are closed forms over a symbolic grid; set difference is modelled by membership.')
prop('D02', 'Image unpack and concat are inverse for every mask',
     'For any mask that partitions the pixels, unpack returns the pixels at the unobserved and the observed indices in '
     'mask order, concat writes each part back to its own indices, and unpack after concat returns the parts unchanged, '
     'for any number of leading batch axes.', ['inputs'], 'all images, masks and batch shapes of 0 to 2 leading axes',
     'Tests check one mask and one image.', [DI], [('ImageRestore.unpack, concat', DI)],
     'Masks are symbolic index sets assumed disjoint and distinct (D01).')
prop('D03', 'Dataset sampling and enumeration visit samples without repetition',
     'Enumeration splits one random permutation of the indices into consecutive batches, so no sample repeats within an '
     'epoch and batches have the requested size; subsets are drawn without replacement; a sampled pair holds one uniform '
     'image with its own corruption or its own mask, under independent keys.',
     ['inputs', 'histories'], 'all dataset sizes, batch sizes, keys and batch indices',
     'Tests enumerate one array with a divisible size.', [DB, DI], [('Dataset.init_enumeration, draw_subset, samplers', DB)],
     'Batching, sampling and per-image corruption as symbolic index maps.')
prop('D04', 'Train and test splits are disjoint, complete and consistently sized',
     'Each image dataset presents, for train and for test, a random order of its designated images only: the train or test '
     'array of MNIST and CIFAR-10, and for CelebA-HQ the first 1000 images for test and all others for training, whatever '
     'the key. The declared sample count and image shape agree with the data.',
     ['inputs', 'configurations'], 'all keys; all dataset classes, tasks and resolutions shipped',
     'The test suite has no data files, so these classes never run in it.', [DI],
     [('MNIST, CIFAR10, CelebAHQ, MNISTRestore, CelebAHQRestore', DI)],
     'File contents are symbolic arrays of the shapes the dataset makers write.')
prop('D05', 'Image corruption and normalisation do what each task declares',
     'Down-sampling goes down and up by nearest neighbours with a ratio of 4 or 8 at random; painting zeroes one of 16 '
     'equally likely squares and keeps the other pixels; deconvolution blurs each channel with the Gaussian kernel and '
     'rescales to the unit range; the task name selects the corruption; concat and unpack of the pair are inverse; '
     'normalise clips or rescales per channel.',
     ['inputs', 'configurations'], 'all images and keys; shipped image sizes and tasks',
     'No test runs the corruptions.', [DI], [('Image.corrupt, concat, unpack; normalise', DI)],
     'Convolution is expanded over the kernel window; nearest resizing is exact index arithmetic.')
prop('D06', 'The crescent model has consistent sampler, densities, score and posterior',
     'The sampler draws the Gaussian prior and the documented emission with noise variance xi; the log prior and the log '
     'likelihood are the log densities of those laws; the score is the gradient of the log joint with respect to all three '
     'coordinates; the posterior is the normalised product on the mesh.',
     ['inputs'], 'all parameters, states, observations and (also non-square) meshes',
     'One statistical test with default parameters; the posterior is never tested.', [DY], [('Crescent', DY)],
     'Derivatives are taken symbolically.')

NB, NM, NU, NT = 'fbs/nn/base.py', 'fbs/nn/models.py', 'fbs/nn/unet.py', 'fbs/nn/utils.py'
prop('N01', 'Sinusoidal embedding has the documented frequencies',
     'The embedding of a time is the sines followed by the cosines of the time multiplied with a geometric ladder of '
     'frequencies from 1 down to 1 over max_period, half as many as the output dimension. An odd output dimension is refused.',
     ['inputs', 'configurations'], 'all times, even output dimensions and periods',
     'No test evaluates the embedding.', [NB], [('sinusoidal_embedding', NB)],
     'Exact real arithmetic.')
prop('N02', 'Pixel shuffle is the sub-pixel rearrangement',
     'PixelShuffle(s) moves channel (i, j, c) of pixel (h, w) to channel c of pixel (h s + i, w s + j); no value is lost, '
     'repeated or moved across the batch.',
     ['inputs', 'configurations'], 'all batch sizes, heights, widths, channels and scales',
     'The test has one output channel and scale 2, where several orderings of the channels agree.', [NT],
     [('PixelShuffle', NT)], 'Index maps are compared for symbolic extents.')
prop('N03', 'Network wrappers evaluate the network at the given flat parameters',
     'The wrappers initialise the network at inputs of the declared batch shape, return its raveled parameters and the '
     'unraveling map, and their forward pass applies the network with the unraveled parameters to the given state and time. '
     'In make_nn_with_time the network sees the state followed by the scaled time.',
     ['programs', 'inputs'], 'all networks, parameters, states and times',
     'No test calls the wrappers.', [NB, NT, NM], [('make_st_nn', NB), ('make_nn_with_time', NT), ('make_simple_st_nn', NM)],
     'The network is an uninterpreted init/apply pair; make_simple_st_nn is claimed for a given network only.')
prop('N04', 'UNet maps every image of a batch as if it were alone',
     'For every batch size above one, image extent divisible by the down-sampling factor and width, each image of a batch is '
     'mapped to what the network gives for that image alone at its own time, and the output has the shape of the input '
     '(with out_dim, or twice the channels for learnt variance, where requested). A single image equals a batch of one, and '
     'time enters only as time over dt.',
     ['inputs', 'configurations'], 'all batch sizes, extents, channels, widths; both up-samplings; scalar and vector times',
     'No test runs the UNet; particles mixed within a batch still give plausible images.', [NU], [('UNet', NU)],
     'Library layers are uninterpreted maps of one sample (as documented); dim_mults of length 2 to 4.')
prop('N05', 'The vector networks map every row of a batch as if it were alone',
     'CrescentMLP, GMSBMLP and the MNIST network return outputs of the shape of their inputs, and each row of the output '
     'is what the network gives for that row and its own time alone.',
     ['inputs', 'configurations'], 'all batch sizes above one, dimensions, parameters; scalar and vector times where accepted',
     'No test runs these networks.', [NM], [('CrescentMLP, GMSBMLP, MNISTResConv', NM)],
     'Library layers are uninterpreted maps of one row or image; the pixel-shuffle decoder only.')
prop('N06', 'UNet blocks compute their defining formulas',
     'The weight-standardised convolution uses kernels of zero mean and unit variance per output channel; the residual block '
     'scales and shifts its features with the time embedding and adds its (projected) input; attention is softmax of scaled '
     'normalised queries and keys over positions per head; linear attention is the softmax-kernel context per head.',
     ['inputs', 'configurations'], 'all batch sizes, extents, channels and parameters',
     'No test runs the blocks.', [NU], [('WeightStandardizedConv, ResnetBlock, Attention, LinearAttention', NU)],
     'Library layers are uninterpreted; default head counts, symbolic everything else.')
prop('N07', 'Training step is one optimiser step; the EMA follows its schedule',
     'One training step takes the gradient of the loss with respect to the parameters only, updates the optimiser state with '
     'it, adds the update to the parameters and returns the loss at the old parameters. The moving average is the parameter '
     'itself before the start count, moves by one minus decay towards the parameter at multiples of the period, and is '
     'unchanged otherwise.',
     ['programs', 'inputs', 'histories'], 'all losses, optimisers, states, counts, periods and decays',
     'No test uses the training kernels.', [NT], [('make_optax_kernel', NT)],
     'Loss and optimiser are uninterpreted functions.')

TOY = [f'experiments/toy/gp_{m}.py' for m in ('filter', 'gibbs', 'pmcmc', 'twisted', 'csgm')]
SBX = ['experiments/sb/filter.py', 'experiments/sb/gibbs.py']
prop('E01', 'GP experiments run their sampler on the exact conditional problem',
     'Each Gaussian-process experiment samples with the library sampler it is named after, given the reverse-time Euler '
     'transitions, likelihoods, twisting functions and terminal reference law of the exactly noised joint (or latent) Gaussian '
     'of its regression problem. Its chain hands every state on to the next iteration under a fresh key, and it saves the '
     'draws, the exact posterior mean and covariance under the name that encodes its settings.',
     ['inputs', 'configurations', 'histories'], 'all dimensions, sample, particle and chain counts, seeds and flag settings',
     'No test runs an experiment script.', TOY, [('whole script', f) for f in TOY],
     'Scripts are interpreted with symbolic flags; library samplers are recorded calls (decided by C01-C14) whose callable '
     'arguments are compared on arbitrary probes.')
prop('E02', 'Bridge experiments run their sampler on the exact Gaussian bridge',
     'Each Schroedinger-bridge experiment solves the bridge between the joint law of its regression problem and its random '
     'Gaussian reference, and samples with the filter or the Gibbs kernel given the reverse-time Euler transitions and '
     'likelihoods of that bridge and the exact conditional of the reference. The forward path starts from the requested '
     'start and keeps its observation part; results are saved under the name that encodes the settings.',
     ['inputs', 'configurations', 'histories'], 'all dimensions, sample and particle counts, seeds and flag settings',
     'No test runs an experiment script.', SBX, [('whole script', f) for f in SBX],
     'The bridge marginals and drift are opaque (decided by S07); otherwise as for E01.')

IMG = [f'experiments/imgs/{k}{m}.py' for k in ('inpainting', 'supr') for m in ('', '_csgm', '_twisted')] + ['experiments/sb_imgs/supr.py']
prop('E03', "Image restoration runs its sampler on the trained model's reverse process",
     'Each restoration experiment draws the test images of its data set one after another, in an order set by the test seed '
     'alone (images before the start index are skipped, not replaced). It loads the model named by data set, SDE and epoch '
     '(or bridge step) and restores each image with the sampler of its method flag, given the reverse-time Euler transitions, '
     'likelihoods and twisting functions of that model, -f + g^2 score at T - t (or the learnt backward drift), seen through '
     'the mask of that image. Chains hand every state on under a fresh key, every restored image keeps the observed pixels, '
     'and truth, mask and restored images are saved under names that encode the settings.',
     ['inputs', 'configurations', 'histories'],
     'all step, sample and particle counts, seeds, epochs and model outputs; every method, both SDEs, start modes and flags',
     'No test runs an experiment script, and the trained models are not in the repository.', IMG, [('whole script', f) for f in IMG],
     'The network is an uninterpreted function of state, time and parameters; masks are arbitrary complementary index sets '
     '(decided by D01, D02); pMCMC chains start from a blank image, as the scripts document.')
TR = ['experiments/imgs/train.py', 'experiments/sb_imgs/train.py']
prop('E04', 'Training runs the documented recursion and checkpoints its own state',
     'Score training enumerates the training images in a freshly permuted order every epoch and takes one step of the selected '
     'optimiser per batch on the selected score loss of the selected SDE over [0, T], with a fresh key per step; an exponential '
     'moving average follows the parameters, and every hundredth epoch the current parameters and their average are written '
     'under the name of data set, SDE and epoch. Bridge training alternates: the backward drift is trained on data carried '
     'forward by the other half (the reference SDE in the first iteration), then the forward drift on Gaussian samples carried '
     'backward over reversed random times that contain both end points; each half updates only its own parameters and '
     'optimiser state, and both parameters are written after every iteration.',
     ['inputs', 'configurations', 'histories'],
     'all batch sizes, step counts, learning rates, epoch numbers and network outputs; data sets, SDEs, schedules, clipping, loss '
     'variants; bridge iterations up to 2 (quick) or 3 (thorough)',
     'No test runs a training script; a run takes GPU days.', TR, [('whole script', f) for f in TR],
     'The network, optimiser and losses are uninterpreted functions (the losses are decided by S06 and B01, the step by N07); '
     'the plots at the end of the scripts are no part of it.')
prop('A01', 'An argument left out means its documented default',
     'Calling a public function or class without an optional argument is the same as passing its documented default: one '
     'integration substep, terminal values, log-space filtering with the last particles, plain (not preconditioned) proposals, '
     'joint (not marginalised) forward paths with explicit backward and non-explicit final sampling, conditional resampling '
     'with a start at index zero, horizon 2 with 100 random score-matching times, unit bridge noise, training splits at the '
     'default resolution and task, random super-resolution masks, and the stock network sizes.',
     ['programs', 'inputs'], 'all values of the other arguments',
     'Tests pass these arguments explicitly or only use one setting.',
     ['fbs/samplers/smc.py', 'fbs/samplers/gibbs.py', 'fbs/samplers/csmc/csmc.py', 'fbs/samplers/csmc/resamplings.py',
      'fbs/sdes/simulators.py', 'fbs/sdes/linear.py', 'fbs/utils.py', 'fbs/nn/base.py', 'fbs/nn/unet.py', 'fbs/nn/models.py',
      'fbs/data/images.py', 'fbs/data/bayesian.py'],
     [('euler_maruyama', 'fbs/sdes/simulators.py'), ('make_linear_sde_law_loss', 'fbs/sdes/linear.py'),
      ('gibbs_kernel', 'fbs/samplers/gibbs.py'), ('pmcmc_kernel', 'fbs/samplers/smc.py'), ('MNISTRestore', 'fbs/data/images.py')],
     'The meaning of each explicitly passed value is decided by the other properties.')

NA = []


def na(id, title, statement, over, text, why, files, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=[], observe=[],
                   reason=reason))


na('X01', 'Samplers converge to the exact conditional law',
   'As particles and iterations grow, Gibbs, particle MCMC, filter and twisted samplers converge to the conditional law of '
   'the model given the data.', ['inputs', 'histories'], 'all models with an exact reverse-time process',
   'A finite run cannot show a limit.', [SMC, GB],
   'Asymptotic exactness and ergodicity are limit statements about probability measures; no sound static argument in reach '
   'derives them from the source. The one-step laws they rest on are claimed separately.')
na('X02', 'No NaN or overflow in long sampler runs',
   'Starting from finite inputs, weights, likelihoods and states of every sampler stay finite.', ['inputs', 'histories'],
   'all finite inputs and all numbers of steps', 'Tests use benign magnitudes.', [SMC, CS, GB],
   'Depends on floating-point magnitudes of user-supplied log densities and networks, which no static bound in reach '
   'covers; all claims here are over exact real arithmetic.')
na('X03', 'Trained networks approximate the scores and bridges they are trained for',
   'After training, the networks reproduce the score or bridge drift well enough for sampling.', ['inputs', 'histories'],
   'all datasets and training runs', 'Training outcomes are statistical.', ['fbs/nn/models.py', 'fbs/dsb/base.py'],
   'A statistical property of an optimisation run, not of the source.')
