H = "Herbrand abstract interpretation: canonical value terms, member updates, calls and call order of every function of the area compared with a reference specification (ref/%s.cpp)"

prop("C04", "Simulation clock and update schedule",
     "Every simulation step advances the elapsed time by exactly one simulation step. Attitude, orbit, thermal and component updates become due exactly when their own interval has elapsed since they were last due "
     "(an interval equal to the step: every step; a longer interval: once per interval; the schedules do not influence one another), and the log is written once per log interval, first at start. "
     "The reported Julian date, decimal year, sidereal time, ephemeris time and UTC calendar date all follow from the start date plus the elapsed time; time settings are read from the documented keys, an interval of zero or below the simulation step is raised to the step as documented, "
     "and a new run starts from the configured start time with all counters reset.",
     ["inputs", "histories", "configurations"], "all step widths and intervals, all start dates, all numbers of steps",
     TESTS + "The schedule of a whole run is never executed by a test.",
     ["src/environment/global/simulation_time.cpp", "src/environment/global/simulation_time.hpp"],
     [("SimulationTime::UpdateTime", "src/environment/global/simulation_time.cpp"), ("InitSimulationTime", "src/environment/global/simulation_time.cpp")],
     check="area.py C04", technique=H % "c04")

prop("C05", "Component clocking and power gating",
     "The clock generator ticks every registered component exactly once per clock period, with the same running count for all, and ticks only components that are registered at that moment. "
     "A component runs its main routine on every prescaler-th count while its power port is on and its power-off routine otherwise; its fast routine runs on the fast prescaler under the same power condition, and prescalers of zero or less act as one. "
     "A power port is on exactly when its supplied voltage is at least the minimum voltage and the current does not exceed the limit; it draws assumed power divided by voltage while on and zero while off; "
     "every setter updates exactly the stored setting it names, and assumed power can be added and subtracted without loss.",
     ["inputs", "histories", "configurations"], "all prescalers, clock counts, voltages, limits, registration orders",
     TESTS + "Gating depends on sequences of voltage changes and ticks.",
     ["src/environment/global/clock_generator.cpp", "src/components/base/component.cpp", "src/components/ports/power_port.cpp"],
     [("ClockGenerator::TickToComponents/UpdateComponents", "src/environment/global/clock_generator.cpp"), ("Component::Tick/FastTick", "src/components/base/component.cpp"), ("PowerPort::Update/SetVoltage_V", "src/components/ports/power_port.cpp")],
     check="area.py C05", technique=H % "c05")

prop("C12", "One step: stage order, freshness and exactly-once accumulation",
     "In one simulation step of a spacecraft, forces and torques of the previous step are cleared first; then the local environment, the disturbances and the components are updated, all using the state and environment of the same instant; "
     "then every enabled disturbance's and the components' force, torque and acceleration are added exactly once to the dynamics; then attitude, orbit and temperature are propagated to the new time. "
     "Position-dependent and attitude-dependent environment and disturbances are refreshed whenever the orbit or attitude they depend on was updated, and nothing from an earlier step is added again.",
     ["inputs", "histories", "configurations"], "all combinations of update flags, enabled disturbances and models, all states",
     TESTS + "Stale or doubled contributions need a full spacecraft step with particular update flags.",
     ["src/simulation/spacecraft/spacecraft.cpp", "src/dynamics/dynamics.cpp", "src/disturbances/disturbances.cpp", "src/environment/local/local_environment.cpp"],
     [("Spacecraft::Update", "src/simulation/spacecraft/spacecraft.cpp"), ("Dynamics::Update/ClearForceTorque", "src/dynamics/dynamics.cpp"), ("Disturbances::Update", "src/disturbances/disturbances.cpp"), ("LocalEnvironment::Update", "src/environment/local/local_environment.cpp")],
     check="c12_pipeline.py", technique="Abstract interpretation of the whole step with all stages as leaves; path conditions of every stage call compared with the specified ones, provenance of every accumulated force/torque term")

prop("C17", "Random generators and Monte Carlo cases",
     "A random generator's output sequence is a function of its seed alone: the linear congruential generators implement the minimal standard recurrence, the normal generator the polar Box-Muller transform with the configured average and deviation. "
     "A Monte Carlo executor runs exactly the configured number of cases (one when disabled), counts each once, and randomizes every registered parameter before each case. "
     "Each randomization type draws its value from the distribution its name says, from the configured mean/min and sigma/max; a simulation object takes the randomized value of exactly the parameter registered under its own name and keeps its setting-file value when none is registered or Monte Carlo is disabled.",
     ["inputs", "histories", "configurations"], "all seeds, all parameter names and randomization types, all numbers of cases",
     TESTS + "Tests do not run Monte Carlo cases.",
     ["src/math_physics/randomization", "src/simulation/monte_carlo_simulation"],
     [("MonteCarloSimulationExecutor", "src/simulation/monte_carlo_simulation/monte_carlo_simulation_executor.cpp"), ("InitializedMonteCarloParameters", "src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp"), ("GlobalRandomization, NormalRand", "src/math_physics/randomization")],
     check="area.py C17", technique=H % "c17")

prop("C22", "Sensors measure the true state with the configured errors",
     "Every sensor and observer (gyro, magnetometer, star sensor, sun sensor, GNSS receiver, telescope, angular velocity, attitude and orbit observers) reports the true quantity expressed in the frame and unit its getter names, transformed with its own mounting, with exactly the configured scale factor, bias, noise, range, delay and quantization applied. "
     "Detection, visibility, exclusion-angle and capture judgements hold exactly under the configured geometric conditions (angle to the sun, earth, moon, field of view, eclipse, antenna cone, number of visible satellites), and when they fail the sensor raises its flag or withholds the value as documented. "
     "Settings are read from the documented keys and stored in the members they name.",
     ["inputs", "histories", "configurations"], "all attitudes, orbits, celestial geometries, mounting quaternions, error settings",
     TESTS + "No test builds a sensor.",
     ["src/components/real/aocs", "src/components/real/mission/telescope.cpp", "src/components/ideal", "src/components/base/sensor_template_functions.hpp"],
     [("GyroSensor, Magnetometer, StarSensor, SunSensor, GnssReceiver", "src/components/real/aocs"), ("Telescope", "src/components/real/mission/telescope.cpp"), ("observers", "src/components/ideal")],
     check="area.py C22", technique=H % "c22")

prop("C23", "Actuators produce the commanded force, torque and moment",
     "Every actuator (reaction wheel with jitter, magnetorquer, thruster, force and torque generators) produces the output its command asks for within its configured limits: magnitude saturation, dead time and delay, duty, direction and direction noise, dead band and coasting for a wheel that is not driven, magnetic moment times magnetic field for the magnetorquer, thrust times lever arm for the thruster. "
     "Outputs are in the frame and unit the getter names, opposite reactions have opposite sign, internal wheel speed and angular momentum follow from the applied torque and inertia with the velocity limit respected, and an unpowered actuator outputs zero (or coasts) until it is powered again. "
     "The magnetometer interference of a magnetorquer is the configured polynomial of its moment, applied without accumulating over steps.",
     ["inputs", "histories", "configurations"], "all commands, states, mountings, limits, power conditions",
     TESTS + "No test builds an actuator.",
     ["src/components/real/aocs/reaction_wheel.cpp", "src/components/real/aocs/reaction_wheel_jitter.cpp", "src/components/real/aocs/magnetorquer.cpp", "src/components/real/propulsion/simple_thruster.cpp", "src/components/ideal/force_generator.cpp", "src/components/ideal/torque_generator.cpp", "src/components/real/aocs/mtq_magnetometer_interference.cpp"],
     [("ReactionWheel, ReactionWheelOde, ReactionWheelJitter", "src/components/real/aocs"), ("Magnetorquer, MtqMagnetometerInterference", "src/components/real/aocs"), ("SimpleThruster", "src/components/real/propulsion/simple_thruster.cpp"), ("ForceGenerator, TorqueGenerator", "src/components/ideal")],
     check="area.py C23", technique=H % "c23")

prop("C24", "Disturbance force and torque laws",
     "Every disturbance yields the force, torque or acceleration of its physical law in the frame its member names, for every state: third-body gravity of every configured body, gravity gradient torque from the spacecraft's position and inertia, residual magnetic moment crossed with the geomagnetic field, "
     "surface forces (air drag, solar radiation pressure) summed over exactly the surfaces facing the source, with torque from each surface's position relative to the centre of mass, and non-spherical earth and lunar gravity. "
     "A disabled disturbance contributes nothing; a result never depends on earlier steps except through the configured random walk and noise.",
     ["inputs", "histories"], "all states, attitudes, surfaces, environments and settings",
     TESTS + "No disturbance is built by a test.",
     ["src/disturbances"], [("Disturbance::UpdateIfEnabled and every Update", "src/disturbances"), ("SurfaceForce::CalcTorqueForce", "src/disturbances/surface_force.cpp")],
     check="area.py C24", technique=H % "c24")

prop("C25", "Attitude and orbit propagation laws",
     "Every attitude and orbit propagator integrates its specified equation of motion from the current time to the requested end time, with steps of the configured width and a last partial step that lands exactly on the end time. "
     "The attitude quaternion stays normalized; angular momentum and kinetic energy reported are those of the current angular velocity, inertia and wheel momentum; the cantilever model couples the flexible mode as specified; controlled attitude points the configured body axes at the configured targets. "
     "RK4, Encke, Kepler, relative (HCW/STM), SGP4 and ephemeris-file orbits use the accumulated acceleration as specified; inertial, body, ECEF and geodetic outputs are refreshed from the same propagated state; initial states are built from settings or Monte Carlo values as documented.",
     ["inputs", "histories", "configurations"], "all states, forces, step widths, end times, propagation modes",
     TESTS + "No propagator is exercised by a test.",
     ["src/dynamics/attitude", "src/dynamics/orbit", "src/dynamics/dynamics.cpp"],
     [("Attitude subclasses' Propagate and derivative functions", "src/dynamics/attitude"), ("Orbit subclasses' Propagate and derivative functions", "src/dynamics/orbit"), ("Orbit::TransformEciToEcef/TransformEcefToGeodetic/UpdateByAttitude", "src/dynamics/orbit/orbit.cpp")],
     check="area.py C25", technique=H % "c25")

prop("C26", "Antenna gain, link budget and ground station visibility",
     "An antenna's transmit EIRP and receive G/T in a direction are the configured power, losses, noise temperature and gain of that direction, the gain coming from the isotropic model or the radiation pattern looked up at the direction's angles within its table. "
     "A ground station's inertial position follows the earth's rotation, and a spacecraft is visible exactly when its elevation above the local horizon exceeds the limit angle. "
     "The link calculator's C/N0, receive margin and maximum bitrate follow the link budget with the configured losses and hardware deterioration and are reset when the spacecraft is not visible.",
     ["inputs", "configurations"], "all positions, attitudes, antenna settings, patterns and stations",
     TESTS + "No test builds an antenna or a ground station.",
     ["src/components/real/communication", "src/simulation/ground_station/ground_station.cpp"],
     [("Antenna, AntennaRadiationPattern", "src/components/real/communication"), ("GroundStationCalculator", "src/components/real/communication/ground_station_calculator.cpp"), ("GroundStation", "src/simulation/ground_station/ground_station.cpp")],
     check="area.py C26", technique=H % "c26")

prop("C28", "On-board computer ports, buses and telecommand links",
     "Bytes, bits and registers exchanged between components and an on-board computer arrive unchanged, in order and at most once, on the port and in the direction they were sent: UART transmit and receive ring buffers, I2C register reads and writes of the addressed device, GPIO line states. "
     "Reads and writes report how many bytes were transferred, never touch more than the connected buffer, and fail with the documented code when a port or address is not connected; connecting an already used port fails and leaves the existing connection alone. "
     "SLIP framing is the inverse of deframing, endian conversion keeps the value, quantization rounds as documented, and command files are encoded into command packets as their database says.",
     ["inputs", "histories"], "all byte strings, buffer sizes and fill states, port ids, addresses, command files",
     TESTS + "No test opens a port or sends a command.",
     ["src/components/ports", "src/components/base/uart_communication_with_obc.cpp", "src/components/base/i2c_target_communication_with_obc.cpp", "src/components/base/i2c_controller.cpp", "src/components/real/cdh", "src/utilities", "src/setting_file_reader/c2a_command_database.cpp", "src/setting_file_reader/wings_operation_file.cpp", "src/components/examples"],
     [("UartPort, I2cPort, GpioPort", "src/components/ports"), ("OnBoardComputer", "src/components/real/cdh/on_board_computer.cpp"), ("UartCommunicationWithObc, I2cTargetCommunicationWithObc", "src/components/base"), ("SLIP, ring buffer, endian", "src/utilities"), ("C2aCommandDatabase", "src/setting_file_reader")],
     check="area.py C28", technique=H % "c28")

prop("C29", "Electrical power: battery, solar panels, power control",
     "A battery's depth of discharge changes by the charge that flows in the elapsed time over its total capacity, its voltage and current limits follow its configured curve, cell numbers and internal resistance. "
     "A solar panel generates the configured power for its sun angle, eclipse state and efficiencies, never negative. "
     "The power control units balance generation, consumption and battery charge as configured, supply the connected ports with the bus voltage they set, and each port is controlled under the id it was connected with; the scenario interface interpolates exactly the configured column at the current time.",
     ["inputs", "histories", "configurations"], "all loads, sun angles, charge states, settings",
     TESTS + "No test builds a power component.",
     ["src/components/real/power"],
     [("Battery", "src/components/real/power/battery.cpp"), ("SolarArrayPanel", "src/components/real/power/solar_array_panel.cpp"), ("PcuInitialStudy, PowerControlUnit", "src/components/real/power"), ("CsvScenarioInterface", "src/components/real/power/csv_scenario_interface.cpp")],
     check="area.py C29", technique=H % "c29")

prop("C30", "Local environment of a spacecraft",
     "At every update the local environment gives, for the spacecraft's current position and attitude: positions and velocities of the celestial bodies relative to the spacecraft in inertial and body frame, the geomagnetic field at the position rotated into the body frame with its noise, solar radiation pressure with the shadow coefficient of every configured shadow source, air density of the configured model at the altitude, earth albedo and infrared. "
     "Density and pressure are defined for every altitude without gaps, a shadow coefficient is between total eclipse and full sun and depends on the apparent discs only, disabled models keep their neutral value, and settings are read from the documented keys.",
     ["inputs", "configurations"], "all positions, altitudes, attitudes, body geometries, models and settings",
     TESTS + "Tests do not build a local environment.",
     ["src/environment/local", "src/math_physics/atmosphere"],
     [("LocalEnvironment::Update", "src/environment/local/local_environment.cpp"), ("SolarRadiationPressureEnvironment::CalcShadowCoefficient", "src/environment/local/solar_radiation_pressure_environment.cpp"), ("Atmosphere", "src/environment/local/atmosphere.cpp"), ("GeomagneticField", "src/environment/local/geomagnetic_field.cpp"), ("LocalCelestialInformation", "src/environment/local/local_celestial_information.cpp")],
     check="area.py C30", technique=H % "c30")

prop("C31", "GNSS satellites and their product files",
     "GNSS satellite positions and clock offsets at the current time are interpolated from exactly the SP3 epochs around it, the interpolation window moves on as time passes and changes file when needed, and inertial positions follow from the earth-fixed ones by the current earth rotation. "
     "SP3, ANTEX and bias SINEX files are read as their formats define: every field from its columns, in the unit stored, for the satellite its identifier names; a file that cannot be opened is reported; out-of-range satellite or epoch ids never read stored data of another; product file names and day-of-year arithmetic follow the naming rules across year ends and leap years.",
     ["inputs", "histories"], "all product files, satellites, epochs and simulation times",
     TESTS + "Tests read one short SP3, ANTEX and SINEX file each.",
     ["src/environment/global/gnss_satellites.cpp", "src/math_physics/gnss"],
     [("GnssSatellites", "src/environment/global/gnss_satellites.cpp"), ("Sp3FileReader, AntexFileReader, BiasSinexFileReader", "src/math_physics/gnss"), ("igs_product_name_handling", "src/math_physics/gnss/igs_product_name_handling.hpp")],
     check="area.py C31", technique=H % "c31")

prop("C32", "Spacecraft structure",
     "Mass, centre of gravity, inertia tensor, surfaces and residual magnetic moment are read from the documented keys of the structure files and stored in the members they name, including the symmetric elements of the inertia tensor; surface optical coefficients are accepted only inside their physical range and each surface keeps its own position, normal, area and coefficients. "
     "Setters and adders change exactly the quantity they name: adding mass adds it, setting a coefficient outside its range is ignored.",
     ["inputs", "configurations"], "all structure files, numbers of surfaces and setter arguments",
     TESTS + "No test builds a structure.",
     ["src/simulation/spacecraft/structure"],
     [("InitKinematicsParameters, InitSurfaces, InitResidualMagneticMoment", "src/simulation/spacecraft/structure/initialize_structure.cpp"), ("Surface, KinematicsParameters, ResidualMagneticMoment", "src/simulation/spacecraft/structure")],
     check="area.py C32", technique=H % "c32")

prop("C33", "Time systems",
     "Epoch time, calendar date-time and GPS time convert into each other without losing or gaining time: leap days, month lengths, fractional seconds and the GPS-UTC leap second offset are applied as defined. "
     "Epoch time addition and subtraction carry and borrow between the integer and fractional second so that the fraction stays in [0, 1), and the comparison operators are the order of the represented instants.",
     ["inputs"], "all dates from 1970, all fractions of seconds",
     "Tests sample some twenty dates.",
     ["src/math_physics/time_system"],
     [("EpochTime", "src/math_physics/time_system/epoch_time.cpp"), ("DateTime", "src/math_physics/time_system/date_time_format.cpp"), ("GpsTime", "src/math_physics/time_system/gps_time.cpp")],
     check="area.py C33", technique=H % "c33")

prop("C35", "Global environment: celestial bodies, earth and moon rotation, stars",
     "At every update the position and velocity of every selected celestial body relative to the centre body are those of the ephemeris at the current time in the configured frame, in SI units, found by the name or id it is asked for; gravity constants and radii are the body's own. "
     "Earth rotation is the product of its precession, nutation, sidereal and polar motion rotations in the configured mode, and the ECEF/TEME conversions use it consistently; moon rotation follows its configured mode. "
     "The star catalogue is read in order of brightness up to the configured magnitude; the global environment updates time before everything that depends on it.",
     ["inputs", "configurations"], "all times, selected bodies, rotation modes and catalogues",
     TESTS + "The ephemeris dependent sources are not even compiled by the test build.",
     ["src/environment/global", "src/math_physics/planet_rotation/moon_rotation_utilities.cpp"],
     [("CelestialInformation", "src/environment/global/celestial_information.cpp"), ("EarthRotation", "src/environment/global/earth_rotation.cpp"), ("MoonRotation", "src/environment/global/moon_rotation.cpp"), ("HipparcosCatalogue", "src/environment/global/hipparcos_catalogue.cpp"), ("GlobalEnvironment", "src/environment/global/global_environment.cpp")],
     check="area.py C35", technique=H % "c35")

prop("C36", "Thermal network",
     "Each diffusive node's temperature is integrated with its heat capacity from exactly its own solar, albedo, infrared, heater and internal loads plus conduction and radiation to every other node, energy leaving one node entering the other; boundary nodes keep their temperature and arithmetic nodes their balance. "
     "Propagation reaches the requested end time, heaters switch at their thresholds with hysteresis and are updated after the step, heat loads follow their time table, and nodes, couplings, loads and heaters are read from the rows and columns that name them.",
     ["inputs", "histories", "configurations"], "all networks, time tables, set points, temperatures",
     TESTS + "No test builds a thermal network.",
     ["src/dynamics/thermal"],
     [("Temperature::Propagate/CalcRungeOneStep/CalcTemperatureDifferentials", "src/dynamics/thermal/temperature.cpp"), ("Node, Heater, HeaterController, Heatload", "src/dynamics/thermal")],
     check="area.py C36", technique=H % "c36")

prop("C37", "Orbital mechanics, geodesy and optics helpers",
     "Orbital elements and position/velocity convert into each other consistently; Kepler propagation places the satellite at the anomaly of the elapsed time, rotated into the inertial frame by its elements; relative orbit matrices are those of the named model; orbit interpolation uses the pushed points only. "
     "Geodetic positions convert to and from earth-fixed coordinates on the reference ellipsoid with latitude, longitude and altitude in their documented ranges and a quaternion to the local horizon; the Gaussian beam formulas give waist, curvature, phase and intensity at the asked distance.",
     ["inputs"], "all orbits, positions and beam parameters",
     "Tests sample a few orbits and positions.",
     ["src/math_physics/orbit", "src/math_physics/geodesy", "src/math_physics/optics"],
     [("KeplerOrbit, OrbitalElements, relative_orbit_models, InterpolationOrbit", "src/math_physics/orbit"), ("GeodeticPosition", "src/math_physics/geodesy/geodetic_position.cpp"), ("GaussianBeamBase", "src/math_physics/optics/gaussian_beam_base.cpp")],
     check="area.py C37", technique=H % "c37")

prop("C38", "Setting files are read as written",
     "Every reader function returns the value of exactly the section and key it is given in the type its name says, element i of vectors, quaternions and lists from key(i), in the documented order, for any number of elements; flags are on exactly for their enabling values; CSV readers return every row and column; "
     "a missing or malformed setting file is reported and stops the run, never silently replaced by another file's values.",
     ["inputs", "configurations"], "all setting files, sections, keys, element counts",
     TESTS + "No test reads a setting file.",
     ["src/setting_file_reader/initialize_file_access.cpp", "src/setting_file_reader/initialize_file_access.hpp"],
     [("IniAccess", "src/setting_file_reader/initialize_file_access.cpp")],
     check="area.py C38", technique=H % "c38")

prop("C39", "Simulation flow, spacecraft assembly and logging set-up",
     "A simulation case resets, then until the finish flag is raised logs when the log flag is set, updates the global environment and then its target objects, once per step. A spacecraft is assembled from its own files with dynamics, environment, disturbances and components that refer to one another; everything is registered with the logger exactly once and released at the end. "
     "Relative information between spacecraft is the difference of their states (target minus reference) in the frame its name says for every registered pair; every enabled disturbance is created once, updated and summed; "
     "the logger writes only when enabled, into its own time-stamped directory, each requested file copied there once without overwriting.",
     ["inputs", "histories", "configurations"], "all numbers of spacecraft, settings, registration orders",
     TESTS + "No test runs a simulation case.",
     ["src/simulation", "src/logger", "src/disturbances/disturbances.cpp"],
     [("SimulationCase", "src/simulation/case/simulation_case.cpp"), ("Spacecraft", "src/simulation/spacecraft/spacecraft.cpp"), ("RelativeInformation", "src/simulation/multiple_spacecraft/relative_information.cpp"), ("Logger", "src/logger/logger.cpp"), ("Disturbances", "src/disturbances/disturbances.cpp")],
     check="area.py C39", technique=H % "c39")

prop("C40", "Vectors, matrices, quaternions and numerical integration",
     "Vector, matrix and quaternion operations are the algebraic operations of their names for every operand and dimension: elementwise sums and scalings, inner and outer products, norms, transposes, products, inverses, and mutually consistent conversions between quaternions, direction cosine matrices and Euler angles and frame conversions. "
     "A step of an ordinary differential equation is the classical fourth-order Runge-Kutta step from the current state, and every integration method applies its own published nodes, weights and coefficients, advancing state and independent variable once per step; "
     "interpolation uses exactly the stored points, oldest replaced first.",
     ["inputs", "histories"], "all operands, dimensions, step widths and right-hand sides",
     "Tests sample some fixed operands and three smooth equations with loose tolerances; the integrator every attitude and orbit propagator uses is not tested.",
     ["src/math_physics/math", "src/math_physics/numerical_integration", "src/math_physics/control_utilities"],
     [("Vector, Matrix, Quaternion, Interpolation", "src/math_physics/math"), ("OrdinaryDifferentialEquation::Update", "src/math_physics/math/ordinary_differential_equation_template_functions.hpp"), ("RungeKutta, EmbeddedRungeKutta, RungeKuttaFehlberg, DormandPrince5", "src/math_physics/numerical_integration"), ("FirstOrderLag", "src/math_physics/control_utilities/first_order_lag.hpp")],
     check="area.py C40", technique=H % "c40")

prop("C41", "Two-line-element orbits and their time arithmetic",
     "A two-line element set is decoded into exactly the mean elements and epoch it encodes, and propagating it by any signed time gives the position and velocity of the published SGP4/SDP4 model with the selected gravity constants (near-Earth, deep-space, half-day and one-day resonance branches, and the error codes of the model). "
     "Calendar date, day of year, Julian date and decimal year convert into each other by the same calendar for every date, and sidereal time is the published polynomial of the Julian date. "
     "Vector products, angles, mean anomaly from true anomaly, orbital elements from position and velocity, and axis rotations compute the quantity of their names, also when output and input are the same array.",
     ["inputs"], "all element sets, signed propagation times, dates and vectors",
     "No test exercises the TLE decoder or the propagator; the deep-space and resonance branches depend on the elements, and an error in a coefficient changes the orbit by kilometres only after days.",
     ["src/math_physics/orbit/sgp4"],
     [("sgp4init, sgp4, dpper, dscom, dsinit, dspace, initl, gstime", "src/math_physics/orbit/sgp4/sgp4unit.cpp"), ("twoline2rv", "src/math_physics/orbit/sgp4/sgp4io.cpp"), ("jday, invjday, days2mdhms, JdToDecyear, rv2coe", "src/math_physics/orbit/sgp4/sgp4ext.cpp")],
     check="area.py C41", technique=H % "c41")

prop("C42", "Ownership and end of life",
     "Every object the program creates is released exactly once, by the function that made it or at the end of life of the object that keeps it, with the matching form of release and through a virtual destructor where it is released through a base class; nothing is released while the end of life of another object still uses it, no destructor deletes a pointer that was never set, and no owning object is copied so that two copies release the same memory. "
     "An object that ends leaves every registry it joined: a component leaves its clock generator, a simulation object leaves the Monte Carlo name list, a spacecraft leaves the relative information, a communication component closes the port it opened, and a logger closes its file. "
     "A simulation can therefore be built, ended and built again in one process any number of times, as every Monte Carlo run does.",
     ["histories", "configurations"], "all objects, constructors, registries and orders of destruction, all numbers of cases in one process",
     "No test builds and ends a simulation case; leaks, dangling registrations and double releases show only in a later case or not at all.",
     ["src", "example/src"],
     [("Component, ClockGenerator::RemoveComponent", "src/components/base/component.cpp"), ("SimulationObject", "src/simulation/monte_carlo_simulation/simulation_object.cpp"), ("Spacecraft, Dynamics, LocalEnvironment, GlobalEnvironment, SampleComponents", "src/simulation/spacecraft/spacecraft.cpp"), ("OnBoardComputer, PowerControlUnit, UartPort, RingBuffer", "src/components/real/cdh/on_board_computer.cpp")],
     check="c42_own.py", technique="Flow-insensitive points-to graph of the whole program with ownership rules (release, double, form, virtual, copy, set, order); destructors compared with a reference specification by Herbrand abstract interpretation")

prop("C43", "Assembly of the simulated satellite and ground station",
     "Every component of the sample satellite is built from the setting file that names it, on the power port of its supply line and the clock of its spacecraft, and reads the dynamics, structure and environment of its own spacecraft. "
     "The force and torque handed to the dynamics are the sums of the outputs of exactly the actuators installed, magnetometer interference follows the magnetorquer at every step, and every component with an output is logged once. "
     "A step of the case updates the spacecraft before the ground station, which evaluates the link between that spacecraft and its own antenna.",
     ["inputs", "configurations"], "all setting files and component states, every step",
     "No test builds the sample satellite; a component wired to a wrong port, file or source, or an actuator left out of the sum, gives a plausible simulation.",
     ["example/src"],
     [("SampleComponents", "example/src/simulation/spacecraft/sample_components.cpp"), ("SampleCase", "example/src/simulation/case/sample_case.cpp"), ("SampleGroundStation, SampleGsComponents", "example/src/simulation/ground_station/sample_ground_station.cpp")],
     check="area.py C43", technique=H % "c43")
