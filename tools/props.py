#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, note='', claim=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, state=state or [], note=note, claim=claim, na=na))


KF, KC, KM = 'misfit/model/kin_functions.py', 'misfit/model/kin_classes.py', 'misfit/model/kin_model.py'
AM, INS, GAL = 'misfit/model/aper_model.py', 'misfit/instrument.py', 'misfit/galaxy.py'
GU, UT, IO = 'misfit/general/galaxy_utils.py', 'misfit/general/general_utils.py', 'misfit/general/io.py'
FC, FIO, F1, F2 = 'misfit/fit/fit_core.py', 'misfit/fit/fit_io.py', 'misfit/fit/fit1D.py', 'misfit/fit/fit2D.py'
EL, MK = 'misfit/model/emission_lines_model.py', 'misfit/mock/generate_basic.py'
INP, CFG, HIS = 'inputs', 'configurations', 'histories'

prop('C01', 'Viewing geometry: inclination from axis ratio, sky to galaxy frame',
     'A disk of apparent axis ratio q and intrinsic thickness q0 is viewed at the inclination for which q^2 = cos^2 i + '
     'q0^2 sin^2 i (edge-on when thinner than q0). Sky offsets are carried into the galaxy frame by a rotation about the '
     'line of sight through the position angle (counter-clockwise from the slit direction) followed by one about the '
     'major axis through the inclination, so distances are preserved and the elliptical radius is constant on the '
     'projected circles of the disk.',
     [INP], 'every axis ratio, thickness, position angle, inclination and offset',
     'The tests build one model with one position angle and axis ratio and compare it with stored output of the same code.',
     [KF], [('inclination', KF + ' sin_i'), ('rotation', KF + ' transform_int_3d'), ('ellipse', KF + ' r_int_ellip')],
     ['kin_functions.sin_i', 'kin_functions.transform_int_3d', 'kin_functions.r_int_ellip'])

prop('C02', 'Seeing kernels have the stated width, shape and orientation',
     'The seeing kernel of an instrument is a decreasing function of angular distance alone, normalised to peak one, that '
     'falls to one half at half of the stated full width, for Gaussian and Moffat seeing; a nod distance adds the two '
     'negative half-strength images at that distance along the slit. The kernel a 2D model uses samples it at the model\'s own '
     'cell sizes, is centred on a sample, and extends far enough to contain the light.',
     [INP, CFG], 'every width, slope, nod distance and offset; the listed pixel scales, slit widths and subpixel factors',
     'The tests use one instrument with a Gaussian kernel and check only stored model values.',
     [INS, AM], [('Gaussian and Moffat stamps', INS + ' PSFGaussian / PSFMoffat'), ('kernel grid', AM + ' AperModel2D.setup_calcs')],
     ['PSF.generate_conv_stamp', 'PSF.set_conv_stamp'])

prop('C03', 'Seeing spreads each channel by its kernel and keeps the light',
     'Convolving a spectral cube with the seeing replaces each voxel by the normalised kernel centred on it, in every '
     'wavelength channel separately: light away from the edges is conserved, channels do not mix, and the kernel is not '
     'shifted or mirrored. Without seeing the cube is unchanged, a model always uses the kernel made for its own instrument '
     'and grid, and the seeing-free cube stays available.',
     [INP, CFG], 'every cube and kernel of the listed shapes',
     'Tests compare one symmetric kernel on one cube with stored values; a shift of a symmetric kernel by one sample changes them '
     'only slightly and other kernels are never used.',
     [KF, AM], [('convolution', KF + ' PSF_convolve, PSF_convolve_flat'), ('use', AM + ' convolve_spectral_cube_PSF')],
     ['AperModel2D.spectra_cube after seeing'])

prop('C04', 'Instrument resolution spreads wavelengths only, by the stated dispersion',
     'Applying the instrument resolution spreads every detector row along wavelength by a Gaussian of the stated instrumental '
     'dispersion, centred (no wavelength shift) and normalised, without mixing rows; light well inside of the wavelength range is '
     'conserved. Zero resolution leaves the model as it is.',
     [INP, CFG], 'every model of the listed sizes, every dispersion of 0.3 to 4 channels',
     'The tests use one resolution and one model against stored values.',
     [KF, AM], [('kernel', KF + ' inst_convol_complete, convol_instconstfwhm'), ('use', AM + ' convolve_instrument_resolution')],
     ['AperModel2D.model after resolution'])

prop('C05', 'Subpixels are summed into detector pixels and the slit without loss',
     'Rebinning sums exactly the block of subpixels that belongs to each output pixel. A 2D model is the cube summed over the cells '
     'inside of the slit and over the subpixels of each detector row (rows kept separate, padding rows and columns dropped), or '
     'keeps the subpixel rows when no rebinning is asked for, and total light inside the aperture is conserved.',
     [INP, CFG], 'every array of the listed shapes and factors',
     'The tests use one subpixel factor and one padding; other shapes take different slices.',
     [KF, AM], [('rebin', KF + ' rebin'), ('trim', AM + ' trim_downsample_spectral_cube')],
     ['AperModel2D.model', 'kin_functions.rebin'])

prop('C06', 'Model cells sample the slit where the observation was taken',
     'The model is evaluated on a regular grid of cells that covers the slit width and all detector rows (plus padding), with cell '
     'sizes equal to the pixel scale over the subpixel factor, and the galaxy centre at the fitted row plus shift and at the '
     'slit offset. Every cell is evaluated at its own galaxy-frame radius and height.',
     [INP, CFG], 'every centre, shift, slit offset, position angle and axis ratio; listed scales, factors and paddings',
     'The tests have one centre, one shift, one scale; half-pixel or sub-row displacements there were part of the stored values.',
     [AM], [('grid', AM + ' AperModel2D.setup_model_grid')], ['intensity profile evaluation points'])

prop('C07', 'Velocity, dispersion and light profiles follow their laws',
     'The velocity profile is (2/pi) Va arctan(r/rt), odd in Va, monotonic and below |Va| in size; the dispersion is the same '
     'everywhere; both follow the latest parameters. The light profile is a Sersic profile in radius times an exponential '
     'in height with scale set by thickness and size, equal to one at the effective radius, decreasing, and follows the '
     'latest galaxy values.',
     [INP, HIS], 'every radius, height, parameter value and parameter update',
     'The tests evaluate the profiles at one parameter set.',
     [KC], [('laws', KC + ' VelArctanProfile, DispConstProfile, IntProfileSersic, IntProfileExpZ'),
            ('updates', KC + ' KinProfile.update_theta, IntensityProfile.update_values')],
     ['vel', 'sigma', 'int'])

prop('C08', 'The spectral cube is the rotating disk, cell by cell',
     'At each sky position the spectrum is the sum over the line of sight of the light of each cell spread as one Gaussian per '
     'emission line, at the line\'s redshifted wavelength Doppler-shifted by the cell\'s line-of-sight velocity, with the cell\'s '
     'dispersion and the line\'s relative strength and unit integral; likewise in velocity units. The line-of-sight velocity is the '
     'rotation speed at the cell\'s radius times the cosine of its azimuth times sin i.',
     [INP, CFG], 'every light, velocity and dispersion; every rotation curve, inclination, angle, centre, redshift',
     'The tests compare one cube with stored values.',
     [KF, AM], [('line sum', KF + ' add_sigma_collapse_z'), ('cube', AM + ' calculate_spectral_cube')],
     ['AperModel2D.spectra_cube'])

prop('C09', 'Narrow lines: finer wavelengths and dispersion floor only when needed',
     'When the dispersion is too small for the wavelength sampling the model is calculated on finer wavelengths and averaged back, '
     'or the dispersion is raised to the floor, if these options are on; otherwise the given wavelengths and dispersion are used '
     'as they are. Flux density and the observed wavelengths are kept, and the decision is made anew for each set of parameters.',
     [INP, CFG, HIS], 'every dispersion and every next dispersion; the listed upsampling factors and options',
     'The tests have one dispersion, so only one of the branches is taken and never after another.',
     [AM], [('decision', AM + ' check_do_upsample_wave'), ('floor', AM + ' calculate_spectral_cube'),
            ('averaging', AM + ' downsample_to_real_wave')], ['AperModel2D.model'])

prop('C10', 'A model depends on its current parameters, not on earlier ones',
     'After any sequence of makes and updates the model equals the one freshly made at the last parameters, for kinematic '
     'parameters as well as the centre shift and the redshift, whatever the options. Nothing of an earlier parameter set (grid, '
     'upsampling, floor, scaling) survives, and a fit may therefore evaluate parameter sets in any order.',
     [HIS, INP], 'every earlier and later parameter set; histories of two and three sets',
     'The tests make or update one model once; a stale value shows only after a particular sequence of two different sets.',
     [KM, AM, KC], [('make/update', KM + ' KinModel2D.make_model, update_model'), ('grid', AM + ' AperModel2D.update_model')],
     ['KinModel2D.model', 'AperModel2D.spectra_cube'],
     state=[('aperModel', 'grid, cube and options of the last parameter set', AM), ('theta', 'current parameters', KM)])

prop('C11', 'Each detector row is scaled to the data by least squares',
     'The model of every row is multiplied by the factor that minimises the error-weighted squared difference to the data over '
     'the sky-free wavelengths of that row; rows without model light, or without any sky-free data, are set to zero. Data in '
     'skyline channels and other rows have no effect, the data are not changed, and no factor is applied when scaling is off.',
     [INP], 'every model, flux and error, missing flux, every listed set of sky-free channels',
     'The tests store one scaled model.',
     [KM], [('amplitude', KM + ' KinModel2D.scale_model')], ['KinModel2D.model'])

prop('C12', 'Chi squared and likelihood: unmasked, weighted pixels only',
     'Chi squared is the weighted sum of squared residuals over errors of the unmasked pixels, and reduced chi squared divides '
     'by unmasked pixels minus free parameters. The log-likelihoods of two models of the same data differ by minus half of '
     'the difference of chi squared, and whatever is in a masked pixel has no effect.',
     [INP], 'every flux, model, error, weight, mask and number of free parameters of the listed shapes',
     'The tests check one number from one data set.',
     [KM], [('chi squared', KM + ' model_chisq, model_redchisq*'), ('likelihood', KM + ' model_llike')],
     ['model_chisq', 'model_redchisq', 'model_llike'])

prop('C13', 'Posterior: flat inside the parameter box, minus infinity outside',
     'The log-posterior is the log-likelihood plus a prior that is zero inside of the bounds of the free parameters (edges '
     'included) and minus infinity outside; fixed parameters and missing bounds do not count. Outside, or when anything is '
     'not a number, it is minus infinity, and outside the model is not evaluated.',
     [INP], 'every box, parameter vector and likelihood value, finite or not',
     'The tests never evaluate the posterior outside or at the edge of the box or with a non-finite likelihood.',
     [KC, FC], [('prior', KC + ' ThetaPriorFlat.log_prior'), ('posterior', FC + ' lnprob, lnlike')],
     ['fit_core.lnprob'])

prop('C14', 'Free parameters map one to one onto the model parameters',
     'A vector of free parameters is placed, in order, at the positions marked as varying; fixed parameters keep their initial '
     'values and the number of free parameters is that of the marks. Vectors of a wrong length are refused without changing the '
     'model, and inputs, settings and initial values are never modified.',
     [INP, CFG], 'every value and every choice of free parameters of one to six',
     'The tests free one fixed set of parameters.',
     [FC, KM, F2], [('initial vector', FC + ' initialize_fitting_theta'), ('placement', KM + ' update_parameters')],
     ['KinModel2D.theta'])

prop('C15', 'Models, fits and copies do not influence each other',
     'Two models evaluated in turn, whatever galaxy, instrument, options or profile objects they share, each give what they give '
     'alone. Default profiles, options, settings and results are made anew for every model and fit, and changing a copy of a '
     'galaxy, spectrum, instrument, option set or model (however deep) never changes the original, or the reverse.',
     [INP, CFG, HIS], 'every pair of parameter sets and every interleaving listed; every stored value',
     'The tests make one model; state shared between instances shows only when a second one is used in the same process.',
     [KM, F2, KC, GAL, INS], [('defaults', KM + ' KinModel2D.__init__'), ('defaults', F2 + ' FitEmissionLines2D.__init__'),
                              ('copies', GAL + ' copy'), ('kernels', INS + ' PSF.set_conv_stamp')],
     ['KinModel2D.model of either model'])

prop('C16', 'Wavelength trimming keeps exactly the channels inside of the range',
     'Trimming a 1D or 2D spectrum keeps exactly the channels within the given observed or rest-frame range (ends included), cuts '
     'all arrays of the spectrum alike, and keeps their values and row order. In place or as a copy the result is the same; a copy leaves '
     'the original as it was, and a range that is missing, ambiguous or not in the parameter file is refused.',
     [INP, CFG, HIS], 'every range, redshift and array contents; one and two trims',
     'The tests trim one spectrum to one range, so ends, gaps and second trims are not seen.',
     [GU, GAL], [('trim 1D/2D', GU + ' trim_spectrum_1D, trim_spectrum_2D_wavelength'), ('methods', GAL + ' trim_spectrum_wavelength')],
     ['ObsSpectrum1D', 'ObsSpectrum2D'])

prop('C17', 'Masks cover exactly missing, edge, skyline and low-signal pixels',
     'A pixel is masked when its flux or error is missing (no finite number), or zero where that means no data, when it is among the given number of '
     'pixels at an edge of the data, when its error exceeds the skyline threshold, or when its row has too little signal or is not '
     'connected to the rows that have enough. No other pixel is masked and masks already set are kept.',
     [INP, CFG], 'every mask, error, flux, row signal and threshold of the listed sizes',
     'The tests have one spectrum with no missing pixels; off-by-one masks only shift a fit slightly.',
     [GU, GAL], [('edges', GU + ' mask_edges_1D'), ('missing', GU + ' spec_mask_missing'), ('skylines', GU + ' wh_skylines_1D'),
                 ('rows', GU + ' mask_low_snr_rows_2D')], ['spec_mask', 'mask_sky', 'mask_snr'])

prop('C18', 'Continuum: slope from the 1D spectrum, level per row, lines masked',
     'The continuum fit uses only good pixels of the fit range outside of the emission lines, weighted by their errors; the slope '
     'comes from the 1D spectrum and each row of the 2D spectrum gets its own level. Exactly the fitted line is '
     'subtracted from every row, nothing is subtracted twice, and the data outside are not altered.',
     [INP, CFG], 'every flux and fitted slope and level; listed missing pixels, ranges and sky channels',
     'The tests give continuum-free data.',
     [GU, GAL], [('fit', GU + ' subtract_continuum_2D'), ('method', GAL + ' subtract_continuum')], ['ObsSpectrum2D.flux', 'continuum'],
     note=' What the optimizer returns is arbitrary: the sum it is given to minimise is what is checked.')

prop('C20', 'Row weights follow signal to noise, add to one and skip low rows',
     'With edge weighting a row counts in inverse proportion to its signal to noise (signal and noise over the sky-free channels '
     'only), with optimal weighting by the fitted Gaussian light profile, and otherwise all rows count alike. Weights add up to one, '
     'with edge or optimal weighting rows of low signal get none, and every channel of a row has the weight of the row.',
     [INP, CFG], 'every flux, fitted profile and choice of low rows; listed errors and sky masks',
     'The tests do not check the weights.',
     [GU, GAL], [('weights', GU + ' calculate_2D_fit_weights'), ('method', GAL + ' calculate_fit_weights')],
     ['fitting_weight_profile', 'fitting_weight_matrix'],
     note=' What the optimizer returns is arbitrary: the sum it is given to minimise is what is checked.')

prop('C19', 'Spatial trimming follows the fitted row, or else the expected row',
     'The row of the object is the fitted one, or the expected one when the fit ends more than two rows away or the nods do not fit the '
     'spectrum; rows within half of the nod distance are kept, and all arrays, the expected row and the extraction profile are '
     'cut alike. Row plus offset is the position, before and after trimming; for the fit the fitted centre and line wavelength are used '
     'when they are close enough to what is expected, otherwise the expected ones.',
     [INP, CFG], 'every fitted row, nod distance, centre and wavelength; every flux in the listed rows',
     'The tests do not trim; the choice between fitted and expected rows depends on what the fit returns.',
     [GU, GAL], [('position', GU + ' vert_position'), ('trim', GU + ' trim_spectrum_2D_spatial'), ('centre', GU + ' get_m0_lam0_pos_2D')],
     ['ObsSpectrum2D.m0', 'm0_shift', 'lam0', 'flux'],
     note=' What the optimizer returns is arbitrary: the sum it is given to minimise is what is checked.')

prop('C21', 'Sky geometry: slit misalignment, projections and inclination',
     'The misalignment is the major axis angle minus the slit angle on the image, modulo half turns, in (-90,90] degrees. Projections '
     'of the major axis on the slit, cut by the slit where it ends, and radii in the disk plane obey the geometry of an inclined '
     'disk rotated by the misalignment, and sin i is that of a disk of the given thickness, edge-on below it.',
     [INP], 'every angle, radius, axis ratio, thickness, slit width and sky position',
     'The tests use one galaxy in one quadrant; a sign or a fold shows only in others.',
     [GU, UT, KF], [('misalignment', GU + ' calculate_slit_offset_angles'), ('projections', UT + ' *_proj_*'),
                    ('rotation', KF + ' transform_int_3d, r_int_ellip, sin_i')], ['galaxy.delt_PA', 'sin_i'])

prop('C22', 'A 1D model is one Gaussian per line plus the continuum polynomial',
     'Each line of a set is a Gaussian in wavelength at its redshifted position with the dispersion in velocity and the flux of the '
     'set times its relative strength; the model is the sum over sets plus a polynomial continuum. Residuals are those of '
     'the unmasked pixels over their errors, zero where data or errors are missing, and nothing of an earlier evaluation remains.',
     [INP, CFG, HIS], 'every redshift, dispersion, flux, coefficient, wavelength, datum and mask of the listed sizes',
     'The tests fit one spectrum with one set of lines.',
     [EL, IO], [('line', EL + ' gaussian_line'), ('set', EL + ' EmissionLines1DModel'), ('spectrum', EL + ' EmissionLinesSpectrum1DModel')],
     ['make1DProfile', 'residual1DProfile'])

prop('C23', 'The 1D fit: objective, trimming, reported values, errors, correction',
     'The fit minimises the residuals of the model of the requested lines over the channels within the line range, with the stated '
     'starting values and bounds; it is done once more, with those bounded below by zero, if dispersion or fluxes come out negative. '
     'It reports the redshift, dispersion, fluxes and continuum of the last minimum and leaves the model there. Errors are '
     'the distances to the 15.865 and 84.135 percentiles over noise realisations; the dispersion is corrected for the instrument in '
     'quadrature, zero below the resolution.',
     [INP, CFG], 'every flux, starting value, fitted value, noise deviate and resolution of the listed sizes',
     'The tests fit one spectrum with one line and seed; order of realisations, stored errors and unresolved lines are not reached.',
     [F1, EL], [('fit', F1 + ' fit'), ('parameters', F1 + ' make_params'), ('trim', F1 + ' setup_spectrum'),
                ('correction', F1 + ' calculate_inst_corr_vel_disp')], ['final_fit', 'errors', 'inst_corr_vel_disp'],
     note=' The minimiser is a stand-in that returns any value within the bounds.')

prop('C24', 'Summaries of the posterior: best fit, errors, derived, linked values',
     'The velocity and dispersion at R_E and 2.2 scale radii are those of each sample of the chain. The best fit of each parameter '
     'is the peak of its marginal density (the search starts at the fullest bin), or of the joint density for linked parameters; its errors '
     'are the distances to the ends of the central 68% and 95% intervals, and fixed values stay. The share of samples with the '
     'opposite sign is recorded, and the model is left at the best fit.',
     [INP, CFG], 'every chain of the listed sizes, every choice of free and linked parameters and every position of the peaks',
     'No test runs the sampler or its analysis.',
     [FC, UT, F2], [('derived', FC + ' add_v_re_22'), ('best fit', FC + ' get_param_posterior_bestfits'), ('chain', FC + ' get_chain_results')],
     ['theta_best_fit', 'err68'], note=' The kernel density and its maximisation are stand-ins that return any peak.')

prop('C25', 'The MCMC run: start, sampled posterior, burn-in and stopping',
     'Walkers start at independent uniform positions within the prior box. The density sampled is the log prior plus log likelihood of '
     'the full fit, whose pared-down copy gives the same value for all parameters and changes nothing of the fit. Burn-in samples are '
     'discarded, the run stops at the requested number of steps or when acceptance and autocorrelation time allow, and what is stored '
     'is what the sampler holds.',
     [INP, CFG, HIS], 'every prior box, deviate, datum, parameter, acceptance fraction and autocorrelation time of the listed sizes',
     'No test runs the sampler.',
     [FC, FIO], [('start', FC + ' init_walker_pos'), ('posterior', FC + ' lnprob, make_pruned_fitEmis2D_class'), ('run', FC + ' run_mcmc')],
     ['sampler_dict', 'lnprob'], note=' The sampler is a stand-in that moves the walkers anywhere.')

prop('C26', 'A fit that is stored and loaded again is the same fit',
     'The sampler dictionary holds the samples after the burn-in and flattens them walker by walker together with their probabilities. The '
     'saved result holds everything that was found, and loading it, its samples or its best fit in a new session gives '
     'the same best fit, errors and model without sampling again.',
     [INP, CFG, HIS], 'every sample, log-probability and peak position of the listed sizes; fit, save and load in sequence',
     'No test stores or loads a fit.',
     [FIO, F2, FC], [('dictionary', FIO + ' make_emcee_sampler_dict'), ('load', F2 + ' reload_results, reload_sampler'), ('save', F2 + ' save_bestfit_model')],
     ['mcmc_results', 'sampler_dict'], note=' Pickling is a stand-in that copies exactly.')

prop('C27', 'Dispersion seen through a slit aperture, and its correction',
     'The dispersion a model predicts in an extraction aperture is the light-weighted root mean square velocity, after seeing, over slit and window '
     'with their weights: of the dispersion profile of a spheroid (aligned or not), or of rotation and dispersion of a disk seen in '
     'projection. The correction is its ratio to the value at (or within) the stated radius; default widths follow light and seeing.',
     [INP, CFG, HIS], 'every radius, velocity, turnover, V/sigma and light of the listed grids, angles, seeing and offsets',
     'Tests pin the value of a few apertures.',
     [AM, KF], [('spheroid', AM + ' AperModel1DDisp, AperModel1DDispMisalign'), ('disk', AM + ' AperModel1DRot')],
     ['sigma_aper', 'disp_aper_ratio'], note=' Quadrature is a three-point stand-in on both sides.')

prop('C28', 'Mock observations are the model of what was asked for',
     'A mock slit image or IFU cube is the model with the given galaxy, light, rotation, dispersion, shift and instrument, on at least the minimum '
     'number of rows with the galaxy in the middle. The slit image is the sum of the spaxels of the cube behind the slit; an IFU '
     'cube is as wide as long and turns with the galaxy.',
     [INP, CFG], 'every velocity, turnover, dispersion and shift of images of 1-4 rows, for the listed angles, seeing and subpixels',
     'Tests do not run the mock generator.',
     [MK, KM], [('galaxy and instrument', MK + ' generate_mock_basis'), ('cube', KM + ' make_3D_int_model')], ['model', 'model_cube'])

prop('C29', 'Lines, ranges and thresholds come from the tables by name',
     'The lines of a group, their wavelengths and strengths, the ranges of a line and the sky threshold of a band are those of the first row '
     'with that name, and an unknown name is an error. What the user gives (names, wavelengths, strengths, tables) is kept and only '
     'the rest is looked up, in spectra, line models and fits alike; a fit and its spectrum end up with the same lines.',
     [INP, CFG], 'every number in tables of 4-6 rows, for every combination of given and missing values',
     'Tests use one group and the shipped numbers.',
     [IO, GAL, EL, F2, F1], [('tables', IO), ('spectrum', GAL + ' initialize_lineset, initialize_skylevels'), ('fit', F2 + ' setup')],
     ['linenames_arr', 'restwave_arr', 'flux_ratio_arr'], note=' The table parser is a stand-in that returns the columns.')

prop('C30', 'Light off the middle of the slit is displaced in wavelength',
     'With the position shift on, each row of a model is displaced in velocity by the offset of its light from the middle of the slit, after seeing, '
     'as found by a Gaussian fit to the light within the slit and limited to the slit, in units of the resolution over the slit width. '
     'The offsets are recomputed when the position of the galaxy changes; the light is not changed.',
     [INP, CFG, HIS], 'every centre and width the fit of a row may give and every velocity, for the listed models',
     'No test turns the shift on.',
     [KF, AM], [('offset', KF + ' calculate_effective_inst_res_lam_shift, check_slit_illum'), ('model', AM + ' AperModel2D, AperModel1DRot')],
     ['spectra_cube', 'sigma_aper'], note=' The least-squares fit of a row is a stand-in that returns any Gaussian.')

prop('C31', 'A prepared spectrum and its likelihood: units, bad pixels, once',
     'Preparing a 2D spectrum for the fit (continuum, trimming, masks, weights, centre) and the likelihood of a model of it depend neither on the units of '
     'flux nor on what is recorded in masked pixels or beyond the ranges of line and continuum. All prepared arrays are the same '
     'rows and channels of the data, low rows weigh nothing, and a spectrum that is prepared is not prepared again.',
     [INP, HIS], 'every scale of the flux and every value in masked or excluded pixels of the listed spectra, through the whole preparation and a fit',
     'No test runs the preparation; each step alone cannot show what the sequence does.',
     [GAL, GU, F2, KM], [('sequence', GAL + ' fit_prep_calcs'), ('steps', GU), ('likelihood', FC + ' lnlike')],
     ['flux', 'spec_mask', 'fitting_weight_matrix'], note=' Least-squares fits are stand-ins that return the same values for the same data.')

prop('C32', 'Size of the emission along the slit; spectra attached to a galaxy',
     'The size of the emission is the width of a Gaussian fitted to the summed rows with signal, with sky channels left out, less the seeing in '
     'quadrature (zero if narrower), and its errors are the 68 per cent limits of fits to perturbed data; -99 where no fit is '
     'possible. A spectrum attached to a galaxy gets rest wavelengths of its redshift and, only if it has none, a mask.',
     [INP], 'every flux, fitted width and deviate of 4-6 rows, every wavelength and redshift',
     'No test measures a size.',
     [GU, GAL], [('size', GU + ' fit_emission_y_profile'), ('attach', GAL + ' set_spectrum_1D, set_spectrum_2D')],
     ['D50', 'D50_err', 'restwave'], note=' Fits and random deviates are stand-ins with any values.')

# MORE-PROPERTIES


def main():
    import importlib
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                             observe_at=p['observe'], hook_needed=None))) + '\n')
    py = '/opt/venv/bin/python'
    checks, na = [], []
    for p in P:
        if not p['claim']:
            na.append(dict(property=p['id'], reason=p['na']))
            continue
        note = ('Bounded symbolic execution of the functions in the working tree (bounds, functions and queries in the evidence '
                'file): holds for all real values within the bounds, on every path. ' + p['note'] +
                ' Trusts the symbolic numpy layer in lib/ (cross-validated against the real code on each run), z3, and '
                'floats read as reals with the stated margins.')
        checks.append(dict(property=p['id'], quick_cmd='%s check.py %s' % (py, p['id']),
                           thorough_cmd='VERIF_TIER=thorough %s check.py %s' % (py, p['id']),
                           technique='solver-based checking: symbolic execution of the real functions, SMT (z3), '
                                     'counterexamples replayed on the real code',
                           level='model_checking', level_note=note))
    m = dict(version=1, setup_cmd='%s -c "from lib import sym; print(sym.z3.get_version_string())"' % py, checks=checks, not_applicable=na,
             notes='Every check imports misfit from /repo\'s working tree on each run; nothing is cached between runs.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
