//! Frozen tables of the documented interpretation of OSM tags (not read from the code under test).
/// category, lanes, km/h, suitability for car, bicycle, pedestrian (0 never, 1 unless picky, 2 always)
pub const CATEGORIES: [(&str, u8, f64, [u8; 3]); 19] = [
    ("Motorway", 3, 130.0, [2, 0, 0]),
    ("MotorwayLink", 1, 50.0, [2, 0, 0]),
    ("Trunk", 2, 100.0, [2, 0, 0]),
    ("TrunkLink", 1, 50.0, [2, 0, 0]),
    ("Primary", 2, 100.0, [2, 1, 0]),
    ("PrimaryLink", 1, 30.0, [2, 1, 0]),
    ("Secondary", 1, 70.0, [2, 1, 0]),
    ("SecondaryLink", 1, 30.0, [2, 1, 0]),
    ("Tertiary", 1, 70.0, [2, 2, 0]),
    ("TertiaryLink", 1, 30.0, [2, 2, 0]),
    ("Unclassified", 1, 50.0, [2, 2, 0]),
    ("Residential", 1, 50.0, [2, 2, 2]),
    ("LivingStreet", 1, 15.0, [2, 2, 2]),
    ("Service", 1, 20.0, [0, 2, 2]),
    ("Track", 1, 30.0, [1, 1, 2]),
    ("Road", 1, 50.0, [0, 0, 0]),
    ("Cycleway", 1, 25.0, [0, 2, 0]),
    ("Pedestrian", 1, 5.0, [0, 1, 2]),
    ("Path", 1, 15.0, [0, 1, 2]),
];

/// value of the highway-tag, category
pub const HIGHWAYS: [(&str, &str); 74] = [
    ("motorway", "Motorway"),
    ("motorway_link", "MotorwayLink"),
    ("trunk", "Trunk"),
    ("trunk_link", "TrunkLink"),
    ("primary", "Primary"),
    ("primary_link", "PrimaryLink"),
    ("secondary", "Secondary"),
    ("secondary_link", "SecondaryLink"),
    ("tertiary", "Tertiary"),
    ("tertiary_link", "TertiaryLink"),
    ("traffic_calming", "TertiaryLink"),
    ("unclassified_link", "TertiaryLink"),
    ("give_way", "Unclassified"),
    ("unclassified", "Unclassified"),
    ("unclasified", "Unclassified"),
    ("area:residential", "Residential"),
    ("asphalt", "Residential"),
    ("junction", "Residential"),
    ("mini_roundabout", "Residential"),
    ("residential", "Residential"),
    ("living_street", "LivingStreet"),
    ("razed:service", "Service"),
    ("service;yes", "Service"),
    ("service", "Service"),
    ("sevice", "Service"),
    ("service2", "Service"),
    ("swervice", "Service"),
    ("byway", "Track"),
    ("historic", "Track"),
    ("path;unclassified", "Track"),
    ("tra#", "Track"),
    ("track", "Track"),
    ("track;path", "Track"),
    ("trank", "Track"),
    ("track; cycleway; cycleway; track; track", "Track"),
    ("4", "Road"),
    ("bridge", "Road"),
    ("fixme", "Road"),
    ("parking_aisle", "Road"),
    ("road", "Road"),
    ("yes", "Road"),
    ("cycleway", "Cycleway"),
    ("bridleway", "Cycleway"),
    ("access_ramp", "Pedestrian"),
    ("access", "Pedestrian"),
    ("alley", "Pedestrian"),
    ("corridor", "Pedestrian"),
    ("crossing", "Pedestrian"),
    ("elevator", "Pedestrian"),
    ("footpath", "Pedestrian"),
    ("footway rad frei", "Pedestrian"),
    ("footway;service", "Pedestrian"),
    ("footway", "Pedestrian"),
    ("fo", "Pedestrian"),
    ("f", "Pedestrian"),
    ("pa", "Pedestrian"),
    ("pedestrian", "Pedestrian"),
    ("private_footway", "Pedestrian"),
    ("ramp", "Pedestrian"),
    ("schoolyard", "Pedestrian"),
    ("sidewalk", "Pedestrian"),
    ("stairs", "Pedestrian"),
    ("steps", "Pedestrian"),
    ("trail", "Pedestrian"),
    ("virtual", "Pedestrian"),
    ("vitrual", "Pedestrian"),
    ("yes;footway", "Pedestrian"),
    ("informal_path", "Path"),
    ("ladder", "Path"),
    ("path---", "Path"),
    ("path;steps", "Path"),
    ("path", "Path"),
    ("path/cycleway", "Path"),
    ("pathless", "Path"),
];

/// values of the highway-tag which are no street
pub const NO_STREETS: [&str; 64] = [
    "85",
    "abondoned",
    "abandoned:highway",
    "abandoned:path",
    "abandoned:service",
    "abandoned",
    "bus_guideway",
    "bus_stop",
    "bus",
    "busway",
    "centre_line",
    "climbing_access",
    "common",
    "under construction",
    "construction",
    "constuction",
    "demolished",
    "dismantled",
    "disused:track",
    "disused",
    "duckboards",
    "emergency_access_point",
    "emergency_bay",
    "escalator",
    "escape",
    "foot",
    "fuel",
    "in planung",
    "island",
    "layby",
    "loading_place",
    "lohwiese",
    "never_built",
    "nicht mehr in benutzung",
    "no",
    "none",
    "p",
    "passing_place",
    "piste",
    "place",
    "planned",
    "platform",
    "private",
    "project",
    "projected",
    "proposed",
    "raceway",
    "razed",
    "removed",
    "rest_area",
    "ser",
    "sere",
    "services",
    "stop_line",
    "stop",
    "street_lamp",
    "tidal_path",
    "traffic_island",
    "traffic_signals",
    "turning_circle",
    "turning_loop",
    "unused",
    "via_ferrata",
    "virtual_rail",
];

/// notations of maxspeed, km/h (-1: default of the category)
pub const SPEEDS: [(&str, f64); 73] = [
    ("de:motorway", 130.0),
    ("100, 70", 100.0),
    ("100; 50", 100.0),
    ("100;70;50", 100.0),
    ("100;70", 100.0),
    ("100;80", 100.0),
    ("100|70", 100.0),
    ("50; 100", 100.0),
    ("50;100", 100.0),
    ("60 mph", 100.0),
    ("50 mph", 80.0),
    ("60;80", 80.0),
    ("80;60", 80.0),
    ("70; 50", 70.0),
    ("50;70", 70.0),
    ("50; 70", 70.0),
    ("40 mph", 70.0),
    ("60;50", 60.0),
    ("20; 50", 50.0),
    ("30 mph", 50.0),
    ("30,50", 50.0),
    ("30; 50", 50.0),
    ("30;50", 50.0),
    ("50; 30", 50.0),
    ("50;30", 50.0),
    ("50b", 50.0),
    ("5ß", 50.0),
    ("de:urban", 50.0),
    ("maxspeed=50", 50.0),
    ("20 mph", 30.0),
    ("30 @ (mo-fr 06:00-18:00)", 30.0),
    ("30 kph", 30.0),
    ("30;10", 30.0),
    ("30; 40", 30.0),
    ("3ß", 30.0),
    ("conditional=30 @ (mo-fr 06:00-22:00)", 30.0),
    ("de:zone:30", 30.0),
    ("de:zone30", 30.0),
    ("zone:maxspeed=de:30", 30.0),
    ("15 mph", 25.0),
    ("2ß", 20.0),
    ("de:bicycle_road", 25.0),
    ("10 mph", 15.0),
    ("10#", 15.0),
    ("1ß", 15.0),
    ("3 mph", 15.0),
    ("4-6", 15.0),
    ("4-7", 15.0),
    ("5 mph", 15.0),
    ("6 km/h", 15.0),
    ("6,5", 15.0),
    ("7-10", 15.0),
    ("de:living_street", 15.0),
    ("de:walk", 15.0),
    ("schrittgeschwindigkeit", 15.0),
    ("walk", 15.0),
    ("*", -1.0),
    ("20:forward", -1.0),
    ("30+", -1.0),
    ("at:rural", -1.0),
    ("at:urban", -1.0),
    ("cz:urban", -1.0),
    ("de:274.1[30]", -1.0),
    ("de:rural", -1.0),
    ("de", -1.0),
    ("fixme:höchster üblicher wert", -1.0),
    ("hgv=30", -1.0),
    ("nome", -1.0),
    ("none", -1.0),
    ("posted time dependent", -1.0),
    ("signal", -1.0),
    ("signals", -1.0),
    ("variable", -1.0),
];

/// notations of oneway (0 both directions, 1 along the nodes, -1 against them)
pub const ONEWAYS: [(&str, i8); 21] = [
    ("1", 1),
    ("left;through", 1),
    ("motor_vehicle", 1),
    ("recommended", 1),
    ("shelter", 1),
    ("use_sidepath", 1),
    ("yes + oneway:bicycle=no", 1),
    ("yes", 1),
    ("´-1", -1),
    ("-1", -1),
    ("-1;no", -1),
    ("alternating", 0),
    ("bicycle", 0),
    ("cycle_barrier", 0),
    ("fixme", 0),
    ("no", 0),
    ("reversible", 0),
    ("undefined", 0),
    ("unknown", 0),
    ("yes @ (2018 aug 0 - 2018 dec 21)", 0),
    ("yes;no", 0),
];
