use lazy_static::*;
use maplit::*;
use std::collections::HashSet;
use std::collections::HashMap;

lazy_static!{
  pub static ref ZONES: HashSet<&'static str> = hashset!(
    "Africa/Abidjan",
    "Africa/Accra",
    "Africa/Addis_Ababa",
    "Africa/Algiers",
    "Africa/Asmara",
    "Africa/Asmera",
    "Africa/Bamako",
    "Africa/Bangui",
    "Africa/Banjul",
    "Africa/Bissau",
    "Africa/Blantyre",
    "Africa/Brazzaville",
    "Africa/Bujumbura",
    "Africa/Cairo",
    "Africa/Casablanca",
    "Africa/Ceuta",
    "Africa/Conakry",
    "Africa/Dakar",
    "Africa/Dar_es_Salaam",
    "Africa/Djibouti",
    "Africa/Douala",
    "Africa/El_Aaiun",
    "Africa/Freetown",
    "Africa/Gaborone",
    "Africa/Harare",
    "Africa/Johannesburg",
    "Africa/Juba",
    "Africa/Kampala",
    "Africa/Khartoum",
    "Africa/Kigali",
    "Africa/Kinshasa",
    "Africa/Lagos",
    "Africa/Libreville",
    "Africa/Lome",
    "Africa/Luanda",
    "Africa/Lubumbashi",
    "Africa/Lusaka",
    "Africa/Malabo",
    "Africa/Maputo",
    "Africa/Maseru",
    "Africa/Mbabane",
    "Africa/Mogadishu",
    "Africa/Monrovia",
    "Africa/Nairobi",
    "Africa/Ndjamena",
    "Africa/Niamey",
    "Africa/Nouakchott",
    "Africa/Ouagadougou",
    "Africa/Porto-Novo",
    "Africa/Sao_Tome",
    "Africa/Timbuktu",
    "Africa/Tripoli",
    "Africa/Tunis",
    "Africa/Windhoek",
    "America/Adak",
    "America/Anchorage",
    "America/Anguilla",
    "America/Antigua",
    "America/Araguaina",
    "America/Argentina/Buenos_Aires",
    "America/Argentina/Catamarca",
    "America/Argentina/ComodRivadavia",
    "America/Argentina/Cordoba",
    "America/Argentina/Jujuy",
    "America/Argentina/La_Rioja",
    "America/Argentina/Mendoza",
    "America/Argentina/Rio_Gallegos",
    "America/Argentina/Salta",
    "America/Argentina/San_Juan",
    "America/Argentina/San_Luis",
    "America/Argentina/Tucuman",
    "America/Argentina/Ushuaia",
    "America/Aruba",
    "America/Asuncion",
    "America/Atikokan",
    "America/Atka",
    "America/Bahia",
    "America/Bahia_Banderas",
    "America/Barbados",
    "America/Belem",
    "America/Belize",
    "America/Blanc-Sablon",
    "America/Boa_Vista",
    "America/Bogota",
    "America/Boise",
    "America/Buenos_Aires",
    "America/Cambridge_Bay",
    "America/Campo_Grande",
    "America/Cancun",
    "America/Caracas",
    "America/Catamarca",
    "America/Cayenne",
    "America/Cayman",
    "America/Chicago",
    "America/Chihuahua",
    "America/Coral_Harbour",
    "America/Cordoba",
    "America/Costa_Rica",
    "America/Creston",
    "America/Cuiaba",
    "America/Curacao",
    "America/Danmarkshavn",
    "America/Dawson",
    "America/Dawson_Creek",
    "America/Denver",
    "America/Detroit",
    "America/Dominica",
    "America/Edmonton",
    "America/Eirunepe",
    "America/El_Salvador",
    "America/Ensenada",
    "America/Fort_Nelson",
    "America/Fort_Wayne",
    "America/Fortaleza",
    "America/Glace_Bay",
    "America/Godthab",
    "America/Goose_Bay",
    "America/Grand_Turk",
    "America/Grenada",
    "America/Guadeloupe",
    "America/Guatemala",
    "America/Guayaquil",
    "America/Guyana",
    "America/Halifax",
    "America/Havana",
    "America/Hermosillo",
    "America/Indiana/Indianapolis",
    "America/Indiana/Knox",
    "America/Indiana/Marengo",
    "America/Indiana/Petersburg",
    "America/Indiana/Tell_City",
    "America/Indiana/Vevay",
    "America/Indiana/Vincennes",
    "America/Indiana/Winamac",
    "America/Indianapolis",
    "America/Inuvik",
    "America/Iqaluit",
    "America/Jamaica",
    "America/Jujuy",
    "America/Juneau",
    "America/Kentucky/Louisville",
    "America/Kentucky/Monticello",
    "America/Knox_IN",
    "America/Kralendijk",
    "America/La_Paz",
    "America/Lima",
    "America/Los_Angeles",
    "America/Louisville",
    "America/Lower_Princes",
    "America/Maceio",
    "America/Managua",
    "America/Manaus",
    "America/Marigot",
    "America/Martinique",
    "America/Matamoros",
    "America/Mazatlan",
    "America/Mendoza",
    "America/Menominee",
    "America/Merida",
    "America/Metlakatla",
    "America/Mexico_City",
    "America/Miquelon",
    "America/Moncton",
    "America/Monterrey",
    "America/Montevideo",
    "America/Montreal",
    "America/Montserrat",
    "America/Nassau",
    "America/New_York",
    "America/Nipigon",
    "America/Nome",
    "America/Noronha",
    "America/North_Dakota/Beulah",
    "America/North_Dakota/Center",
    "America/North_Dakota/New_Salem",
    "America/Nuuk",
    "America/Ojinaga",
    "America/Panama",
    "America/Pangnirtung",
    "America/Paramaribo",
    "America/Phoenix",
    "America/Port-au-Prince",
    "America/Port_of_Spain",
    "America/Porto_Acre",
    "America/Porto_Velho",
    "America/Puerto_Rico",
    "America/Punta_Arenas",
    "America/Rainy_River",
    "America/Rankin_Inlet",
    "America/Recife",
    "America/Regina",
    "America/Resolute",
    "America/Rio_Branco",
    "America/Rosario",
    "America/Santa_Isabel",
    "America/Santarem",
    "America/Santiago",
    "America/Santo_Domingo",
    "America/Sao_Paulo",
    "America/Scoresbysund",
    "America/Shiprock",
    "America/Sitka",
    "America/St_Barthelemy",
    "America/St_Johns",
    "America/St_Kitts",
    "America/St_Lucia",
    "America/St_Thomas",
    "America/St_Vincent",
    "America/Swift_Current",
    "America/Tegucigalpa",
    "America/Thule",
    "America/Thunder_Bay",
    "America/Tijuana",
    "America/Toronto",
    "America/Tortola",
    "America/Vancouver",
    "America/Virgin",
    "America/Whitehorse",
    "America/Winnipeg",
    "America/Yakutat",
    "America/Yellowknife",
    "Antarctica/Casey",
    "Antarctica/Davis",
    "Antarctica/DumontDUrville",
    "Antarctica/Macquarie",
    "Antarctica/Mawson",
    "Antarctica/McMurdo",
    "Antarctica/Palmer",
    "Antarctica/Rothera",
    "Antarctica/South_Pole",
    "Antarctica/Syowa",
    "Antarctica/Troll",
    "Antarctica/Vostok",
    "Arctic/Longyearbyen",
    "Asia/Aden",
    "Asia/Almaty",
    "Asia/Amman",
    "Asia/Anadyr",
    "Asia/Aqtau",
    "Asia/Aqtobe",
    "Asia/Ashgabat",
    "Asia/Ashkhabad",
    "Asia/Atyrau",
    "Asia/Baghdad",
    "Asia/Bahrain",
    "Asia/Baku",
    "Asia/Bangkok",
    "Asia/Barnaul",
    "Asia/Beirut",
    "Asia/Bishkek",
    "Asia/Brunei",
    "Asia/Calcutta",
    "Asia/Chita",
    "Asia/Choibalsan",
    "Asia/Chongqing",
    "Asia/Chungking",
    "Asia/Colombo",
    "Asia/Dacca",
    "Asia/Damascus",
    "Asia/Dhaka",
    "Asia/Dili",
    "Asia/Dubai",
    "Asia/Dushanbe",
    "Asia/Famagusta",
    "Asia/Gaza",
    "Asia/Harbin",
    "Asia/Hebron",
    "Asia/Ho_Chi_Minh",
    "Asia/Hong_Kong",
    "Asia/Hovd",
    "Asia/Irkutsk",
    "Asia/Istanbul",
    "Asia/Jakarta",
    "Asia/Jayapura",
    "Asia/Jerusalem",
    "Asia/Kabul",
    "Asia/Kamchatka",
    "Asia/Karachi",
    "Asia/Kashgar",
    "Asia/Kathmandu",
    "Asia/Katmandu",
    "Asia/Khandyga",
    "Asia/Kolkata",
    "Asia/Krasnoyarsk",
    "Asia/Kuala_Lumpur",
    "Asia/Kuching",
    "Asia/Kuwait",
    "Asia/Macao",
    "Asia/Macau",
    "Asia/Magadan",
    "Asia/Makassar",
    "Asia/Manila",
    "Asia/Muscat",
    "Asia/Nicosia",
    "Asia/Novokuznetsk",
    "Asia/Novosibirsk",
    "Asia/Omsk",
    "Asia/Oral",
    "Asia/Phnom_Penh",
    "Asia/Pontianak",
    "Asia/Pyongyang",
    "Asia/Qatar",
    "Asia/Qostanay",
    "Asia/Qyzylorda",
    "Asia/Rangoon",
    "Asia/Riyadh",
    "Asia/Saigon",
    "Asia/Sakhalin",
    "Asia/Samarkand",
    "Asia/Seoul",
    "Asia/Shanghai",
    "Asia/Singapore",
    "Asia/Srednekolymsk",
    "Asia/Taipei",
    "Asia/Tashkent",
    "Asia/Tbilisi",
    "Asia/Tehran",
    "Asia/Tel_Aviv",
    "Asia/Thimbu",
    "Asia/Thimphu",
    "Asia/Tokyo",
    "Asia/Tomsk",
    "Asia/Ujung_Pandang",
    "Asia/Ulaanbaatar",
    "Asia/Ulan_Bator",
    "Asia/Urumqi",
    "Asia/Ust-Nera",
    "Asia/Vientiane",
    "Asia/Vladivostok",
    "Asia/Yakutsk",
    "Asia/Yangon",
    "Asia/Yekaterinburg",
    "Asia/Yerevan",
    "Atlantic/Azores",
    "Atlantic/Bermuda",
    "Atlantic/Canary",
    "Atlantic/Cape_Verde",
    "Atlantic/Faeroe",
    "Atlantic/Faroe",
    "Atlantic/Jan_Mayen",
    "Atlantic/Madeira",
    "Atlantic/Reykjavik",
    "Atlantic/South_Georgia",
    "Atlantic/St_Helena",
    "Atlantic/Stanley",
    "Australia/ACT",
    "Australia/Adelaide",
    "Australia/Brisbane",
    "Australia/Broken_Hill",
    "Australia/Canberra",
    "Australia/Currie",
    "Australia/Darwin",
    "Australia/Eucla",
    "Australia/Hobart",
    "Australia/LHI",
    "Australia/Lindeman",
    "Australia/Lord_Howe",
    "Australia/Melbourne",
    "Australia/NSW",
    "Australia/North",
    "Australia/Perth",
    "Australia/Queensland",
    "Australia/South",
    "Australia/Sydney",
    "Australia/Tasmania",
    "Australia/Victoria",
    "Australia/West",
    "Australia/Yancowinna",
    "Brazil/Acre",
    "Brazil/DeNoronha",
    "Brazil/East",
    "Brazil/West",
    "CET",
    "CST6CDT",
    "Canada/Atlantic",
    "Canada/Central",
    "Canada/Eastern",
    "Canada/Mountain",
    "Canada/Newfoundland",
    "Canada/Pacific",
    "Canada/Saskatchewan",
    "Canada/Yukon",
    "Chile/Continental",
    "Chile/EasterIsland",
    "Cuba",
    "EET",
    "EST",
    "EST5EDT",
    "Egypt",
    "Eire",
    "Etc/GMT",
    "Etc/GMT+0",
    "Etc/GMT+1",
    "Etc/GMT+10",
    "Etc/GMT+11",
    "Etc/GMT+12",
    "Etc/GMT+2",
    "Etc/GMT+3",
    "Etc/GMT+4",
    "Etc/GMT+5",
    "Etc/GMT+6",
    "Etc/GMT+7",
    "Etc/GMT+8",
    "Etc/GMT+9",
    "Etc/GMT-0",
    "Etc/GMT-1",
    "Etc/GMT-10",
    "Etc/GMT-11",
    "Etc/GMT-12",
    "Etc/GMT-13",
    "Etc/GMT-14",
    "Etc/GMT-2",
    "Etc/GMT-3",
    "Etc/GMT-4",
    "Etc/GMT-5",
    "Etc/GMT-6",
    "Etc/GMT-7",
    "Etc/GMT-8",
    "Etc/GMT-9",
    "Etc/GMT0",
    "Etc/Greenwich",
    "Etc/UCT",
    "Etc/UTC",
    "Etc/Universal",
    "Etc/Zulu",
    "Europe/Amsterdam",
    "Europe/Andorra",
    "Europe/Astrakhan",
    "Europe/Athens",
    "Europe/Belfast",
    "Europe/Belgrade",
    "Europe/Berlin",
    "Europe/Bratislava",
    "Europe/Brussels",
    "Europe/Bucharest",
    "Europe/Budapest",
    "Europe/Busingen",
    "Europe/Chisinau",
    "Europe/Copenhagen",
    "Europe/Dublin",
    "Europe/Gibraltar",
    "Europe/Guernsey",
    "Europe/Helsinki",
    "Europe/Isle_of_Man",
    "Europe/Istanbul",
    "Europe/Jersey",
    "Europe/Kaliningrad",
    "Europe/Kiev",
    "Europe/Kirov",
    "Europe/Lisbon",
    "Europe/Ljubljana",
    "Europe/London",
    "Europe/Luxembourg",
    "Europe/Madrid",
    "Europe/Malta",
    "Europe/Mariehamn",
    "Europe/Minsk",
    "Europe/Monaco",
    "Europe/Moscow",
    "Europe/Nicosia",
    "Europe/Oslo",
    "Europe/Paris",
    "Europe/Podgorica",
    "Europe/Prague",
    "Europe/Riga",
    "Europe/Rome",
    "Europe/Samara",
    "Europe/San_Marino",
    "Europe/Sarajevo",
    "Europe/Saratov",
    "Europe/Simferopol",
    "Europe/Skopje",
    "Europe/Sofia",
    "Europe/Stockholm",
    "Europe/Tallinn",
    "Europe/Tirane",
    "Europe/Tiraspol",
    "Europe/Ulyanovsk",
    "Europe/Uzhgorod",
    "Europe/Vaduz",
    "Europe/Vatican",
    "Europe/Vienna",
    "Europe/Vilnius",
    "Europe/Volgograd",
    "Europe/Warsaw",
    "Europe/Zagreb",
    "Europe/Zaporozhye",
    "Europe/Zurich",
    "GB",
    "GB-Eire",
    "GMT",
    "GMT+0",
    "GMT-0",
    "GMT0",
    "Greenwich",
    "HST",
    "Hongkong",
    "Iceland",
    "Indian/Antananarivo",
    "Indian/Chagos",
    "Indian/Christmas",
    "Indian/Cocos",
    "Indian/Comoro",
    "Indian/Kerguelen",
    "Indian/Mahe",
    "Indian/Maldives",
    "Indian/Mauritius",
    "Indian/Mayotte",
    "Indian/Reunion",
    "Iran",
    "Israel",
    "Jamaica",
    "Japan",
    "Kwajalein",
    "Libya",
    "MET",
    "MST",
    "MST7MDT",
    "Mexico/BajaNorte",
    "Mexico/BajaSur",
    "Mexico/General",
    "NZ",
    "NZ-CHAT",
    "Navajo",
    "PRC",
    "PST8PDT",
    "Pacific/Apia",
    "Pacific/Auckland",
    "Pacific/Bougainville",
    "Pacific/Chatham",
    "Pacific/Chuuk",
    "Pacific/Easter",
    "Pacific/Efate",
    "Pacific/Enderbury",
    "Pacific/Fakaofo",
    "Pacific/Fiji",
    "Pacific/Funafuti",
    "Pacific/Galapagos",
    "Pacific/Gambier",
    "Pacific/Guadalcanal",
    "Pacific/Guam",
    "Pacific/Honolulu",
    "Pacific/Johnston",
    "Pacific/Kiritimati",
    "Pacific/Kosrae",
    "Pacific/Kwajalein",
    "Pacific/Majuro",
    "Pacific/Marquesas",
    "Pacific/Midway",
    "Pacific/Nauru",
    "Pacific/Niue",
    "Pacific/Norfolk",
    "Pacific/Noumea",
    "Pacific/Pago_Pago",
    "Pacific/Palau",
    "Pacific/Pitcairn",
    "Pacific/Pohnpei",
    "Pacific/Ponape",
    "Pacific/Port_Moresby",
    "Pacific/Rarotonga",
    "Pacific/Saipan",
    "Pacific/Samoa",
    "Pacific/Tahiti",
    "Pacific/Tarawa",
    "Pacific/Tongatapu",
    "Pacific/Truk",
    "Pacific/Wake",
    "Pacific/Wallis",
    "Pacific/Yap",
    "Poland",
    "Portugal",
    "ROC",
    "ROK",
    "Singapore",
    "Turkey",
    "UCT",
    "US/Alaska",
    "US/Aleutian",
    "US/Arizona",
    "US/Central",
    "US/East-Indiana",
    "US/Eastern",
    "US/Hawaii",
    "US/Indiana-Starke",
    "US/Michigan",
    "US/Mountain",
    "US/Pacific",
    "US/Pacific-New",
    "US/Samoa",
    "UTC",
    "Universal",
    "W-SU",
    "WET",
    "Zulu",
  );
  pub static ref ZONES_ABBR: HashMap<&'static str, Vec<&'static str>> = hashmap!(
    "NWT" => vec![
      "America/Adak",
      "America/Atka",
      "America/Nome",
      "Canada/Newfoundland",
      "US/Aleutian",
      "America/St_Johns",
      "America/Goose_Bay",
    ],
    "YST" => vec![
      "America/Anchorage",
      "America/Juneau",
      "America/Sitka",
      "America/Dawson",
      "America/Whitehorse",
      "America/Yakutat",
      "America/Nome",
      "Canada/Yukon",
      "US/Alaska",
    ],
    "CPT" => vec![
      "America/Fort_Wayne",
      "America/Indiana/Vevay",
      "America/Indiana/Tell_City",
      "America/Indianapolis",
      "America/Indiana/Indianapolis",
      "America/Coral_Harbour",
      "America/Indiana/Vincennes",
      "America/Knox_IN",
      "America/Kentucky/Monticello",
      "America/Rainy_River",
      "America/Winnipeg",
      "America/Menominee",
      "Canada/Central",
      "America/Indiana/Petersburg",
      "America/Indiana/Knox",
      "America/Chicago",
      "US/Central",
      "America/Louisville",
      "US/Indiana-Starke",
      "US/East-Indiana",
      "America/Indiana/Marengo",
      "America/Indiana/Winamac",
      "America/Kentucky/Louisville",
      "America/Atikokan",
      "CST6CDT",
    ],
    "MMT" => vec![
      "Europe/Minsk",
      "Europe/Moscow",
      "Africa/Monrovia",
      "Indian/Maldives",
      "W-SU",
      "Asia/Ujung_Pandang",
      "Asia/Colombo",
      "America/Managua",
      "Asia/Calcutta",
      "America/Montevideo",
      "Asia/Makassar",
      "Asia/Kolkata",
    ],
    "+11" => vec![
      "Asia/Khandyga",
      "Australia/Lord_Howe",
      "Pacific/Efate",
      "Pacific/Ponape",
      "Pacific/Bougainville",
      "Pacific/Kosrae",
      "Pacific/Majuro",
      "Pacific/Pohnpei",
      "Kwajalein",
      "Asia/Anadyr",
      "Asia/Ust-Nera",
      "Asia/Vladivostok",
      "Pacific/Kwajalein",
      "Antarctica/Casey",
      "Pacific/Guadalcanal",
      "Antarctica/Macquarie",
      "Australia/LHI",
      "Asia/Kamchatka",
      "Asia/Magadan",
      "Asia/Srednekolymsk",
      "Pacific/Norfolk",
      "Asia/Sakhalin",
      "Pacific/Noumea",
    ],
    "+05" => vec![
      "Asia/Tbilisi",
      "Asia/Atyrau",
      "Indian/Chagos",
      "Asia/Dushanbe",
      "Indian/Kerguelen",
      "Asia/Qostanay",
      "Asia/Aqtau",
      "Asia/Yekaterinburg",
      "Iran",
      "Asia/Ashgabat",
      "Asia/Aqtobe",
      "Europe/Samara",
      "Europe/Volgograd",
      "Europe/Astrakhan",
      "Asia/Tashkent",
      "Asia/Karachi",
      "Europe/Saratov",
      "Asia/Omsk",
      "Asia/Qyzylorda",
      "Asia/Samarkand",
      "Indian/Mauritius",
      "Europe/Ulyanovsk",
      "Antarctica/Mawson",
      "Asia/Bishkek",
      "Asia/Baku",
      "Asia/Oral",
      "Europe/Moscow",
      "Antarctica/Davis",
      "Asia/Yerevan",
      "Asia/Tehran",
      "Indian/Maldives",
      "Europe/Kirov",
      "Asia/Almaty",
      "W-SU",
      "Asia/Ashkhabad",
    ],
    "EWT" => vec![
      "America/Iqaluit",
      "America/New_York",
      "EST5EDT",
      "US/Michigan",
      "America/Detroit",
      "America/Nipigon",
      "America/Toronto",
      "America/Montreal",
      "America/Thunder_Bay",
      "Canada/Eastern",
      "US/Eastern",
    ],
    "BST" => vec![
      "Europe/Belfast",
      "Europe/Isle_of_Man",
      "GB",
      "GB-Eire",
      "America/Adak",
      "Europe/Jersey",
      "US/Aleutian",
      "America/Nome",
      "Europe/Gibraltar",
      "Europe/Guernsey",
      "Europe/London",
      "America/La_Paz",
      "America/Atka",
      "Europe/Dublin",
      "Eire",
    ],
    "-0930" => vec![
      "Pacific/Marquesas",
      "Pacific/Rarotonga",
    ],
    "-10" => vec![
      "Pacific/Kiritimati",
      "Pacific/Rarotonga",
      "Pacific/Apia",
      "Pacific/Tahiti",
    ],
    "+0220" => vec![
      "Europe/Zaporozhye",
    ],
    "-0830" => vec![
      "Pacific/Pitcairn",
    ],
    "WAST" => vec![
      "Africa/Ndjamena",
    ],
    "GST" => vec![
      "Pacific/Saipan",
      "Pacific/Guam",
    ],
    "+1215" => vec![
      "NZ-CHAT",
      "Pacific/Chatham",
    ],
    "MDT" => vec![
      "America/Ojinaga",
      "America/Inuvik",
      "America/Regina",
      "America/Swift_Current",
      "Canada/Saskatchewan",
      "MST7MDT",
      "Navajo",
      "America/Denver",
      "Mexico/BajaSur",
      "US/Mountain",
      "America/Boise",
      "America/Chihuahua",
      "America/Mazatlan",
      "America/Edmonton",
      "America/Shiprock",
      "America/Yellowknife",
      "America/Cambridge_Bay",
      "Canada/Mountain",
      "US/Arizona",
      "America/Bahia_Banderas",
      "America/North_Dakota/New_Salem",
      "America/North_Dakota/Beulah",
      "America/Phoenix",
      "America/Hermosillo",
      "America/North_Dakota/Center",
    ],
    "ADT" => vec![
      "America/Moncton",
      "America/Barbados",
      "America/Goose_Bay",
      "America/Thule",
      "America/Glace_Bay",
      "Canada/Atlantic",
      "America/Pangnirtung",
      "America/Blanc-Sablon",
      "America/Halifax",
      "America/Martinique",
      "Atlantic/Bermuda",
    ],
    "PDT" => vec![
      "Asia/Manila",
      "America/Tijuana",
      "Canada/Pacific",
      "Canada/Yukon",
      "America/Sitka",
      "America/Fort_Nelson",
      "America/Juneau",
      "America/Los_Angeles",
      "PST8PDT",
      "America/Ensenada",
      "US/Pacific",
      "Mexico/BajaNorte",
      "America/Santa_Isabel",
      "America/Whitehorse",
      "America/Vancouver",
      "America/Dawson",
      "America/Dawson_Creek",
      "America/Metlakatla",
      "US/Pacific-New",
      "America/Boise",
    ],
    "+00" => vec![
      "Atlantic/Reykjavik",
      "Iceland",
      "Atlantic/Madeira",
      "Africa/Casablanca",
      "Africa/El_Aaiun",
      "Antarctica/Troll",
      "America/Scoresbysund",
      "Atlantic/Azores",
    ],
    "SET" => vec![
      "Europe/Stockholm",
    ],
    "WMT" => vec![
      "Europe/Vilnius",
      "Poland",
      "Europe/Warsaw",
    ],
    "-09" => vec![
      "Pacific/Gambier",
    ],
    "HPT" => vec![
      "Pacific/Johnston",
      "Pacific/Honolulu",
      "US/Hawaii",
    ],
    "-1120" => vec![
      "Pacific/Niue",
    ],
    "-1030" => vec![
      "Pacific/Rarotonga",
    ],
    "-01" => vec![
      "Iceland",
      "Atlantic/Cape_Verde",
      "Atlantic/Madeira",
      "Africa/Bissau",
      "Atlantic/Azores",
      "America/Scoresbysund",
      "Atlantic/Canary",
      "Africa/El_Aaiun",
      "Atlantic/Reykjavik",
      "Brazil/DeNoronha",
      "America/Noronha",
    ],
    "YDDT" => vec![
      "America/Whitehorse",
      "Canada/Yukon",
      "America/Dawson",
    ],
    "+0330" => vec![
      "Asia/Tehran",
      "Iran",
    ],
    "-02" => vec![
      "America/Nuuk",
      "America/Argentina/La_Rioja",
      "America/Scoresbysund",
      "Atlantic/Azores",
      "America/Noronha",
      "Atlantic/Cape_Verde",
      "Atlantic/South_Georgia",
      "America/Argentina/Cordoba",
      "Antarctica/Palmer",
      "America/Argentina/San_Luis",
      "America/Montevideo",
      "America/Recife",
      "Brazil/DeNoronha",
      "America/Sao_Paulo",
      "America/Argentina/Tucuman",
      "America/Godthab",
      "America/Araguaina",
      "America/Argentina/Salta",
      "America/Argentina/ComodRivadavia",
      "America/Maceio",
      "America/Argentina/Ushuaia",
      "America/Cordoba",
      "America/Danmarkshavn",
      "America/Miquelon",
      "America/Buenos_Aires",
      "America/Catamarca",
      "America/Argentina/Mendoza",
      "America/Mendoza",
      "Atlantic/Stanley",
      "America/Jujuy",
      "America/Fortaleza",
      "America/Argentina/Rio_Gallegos",
      "America/Belem",
      "America/Rosario",
      "America/Argentina/Buenos_Aires",
      "America/Bahia",
      "Brazil/East",
      "America/Argentina/Catamarca",
      "America/Argentina/Jujuy",
      "America/Argentina/San_Juan",
    ],
    "+13" => vec![
      "Pacific/Tongatapu",
      "Asia/Kamchatka",
      "Asia/Anadyr",
      "Pacific/Fakaofo",
      "Pacific/Fiji",
      "Pacific/Apia",
      "Pacific/Enderbury",
    ],
    "+10" => vec![
      "Antarctica/DumontDUrville",
      "Asia/Magadan",
      "Asia/Macao",
      "Pacific/Pohnpei",
      "Pacific/Ponape",
      "Pacific/Port_Moresby",
      "Asia/Choibalsan",
      "Kwajalein",
      "Pacific/Yap",
      "Asia/Macau",
      "Asia/Srednekolymsk",
      "Asia/Yakutsk",
      "Asia/Vladivostok",
      "Asia/Ust-Nera",
      "Pacific/Chuuk",
      "Pacific/Kosrae",
      "Pacific/Majuro",
      "Pacific/Truk",
      "Asia/Sakhalin",
      "Pacific/Kwajalein",
      "Pacific/Bougainville",
      "Asia/Khandyga",
      "Asia/Chita",
    ],
    "CAT" => vec![
      "Africa/Lubumbashi",
      "Africa/Juba",
      "Africa/Maputo",
      "Africa/Harare",
      "Africa/Kigali",
      "Africa/Khartoum",
      "Africa/Blantyre",
      "Africa/Bujumbura",
      "Africa/Windhoek",
      "Africa/Lusaka",
      "Africa/Gaborone",
    ],
    "KST" => vec![
      "Asia/Pyongyang",
      "ROK",
      "Asia/Seoul",
    ],
    "JST" => vec![
      "Asia/Taipei",
      "Hongkong",
      "ROC",
      "ROK",
      "Asia/Pyongyang",
      "Asia/Tokyo",
      "Asia/Seoul",
      "Asia/Manila",
      "Japan",
      "Asia/Hong_Kong",
    ],
    "AST" => vec![
      "America/Blanc-Sablon",
      "America/Puerto_Rico",
      "America/Glace_Bay",
      "America/Aruba",
      "America/Halifax",
      "America/Montserrat",
      "America/Grenada",
      "America/Marigot",
      "America/St_Barthelemy",
      "America/St_Kitts",
      "America/Tortola",
      "America/Barbados",
      "US/Alaska",
      "America/Port_of_Spain",
      "America/Lower_Princes",
      "America/Anguilla",
      "America/St_Lucia",
      "America/Martinique",
      "America/Moncton",
      "America/Santo_Domingo",
      "America/Thule",
      "America/Virgin",
      "America/Curacao",
      "America/Grand_Turk",
      "Canada/Atlantic",
      "America/Guadeloupe",
      "America/Goose_Bay",
      "America/Antigua",
      "America/Dominica",
      "America/Pangnirtung",
      "America/Miquelon",
      "America/St_Thomas",
      "America/Anchorage",
      "America/St_Vincent",
      "Atlantic/Bermuda",
      "America/Kralendijk",
    ],
    "MET" => vec![
      "MET",
    ],
    "+03" => vec![
      "Asia/Tbilisi",
      "Asia/Baku",
      "Asia/Famagusta",
      "Antarctica/Syowa",
      "Asia/Baghdad",
      "Europe/Minsk",
      "Europe/Ulyanovsk",
      "Europe/Volgograd",
      "Turkey",
      "Europe/Kaliningrad",
      "Europe/Istanbul",
      "Asia/Riyadh",
      "Asia/Yerevan",
      "Asia/Istanbul",
      "Europe/Saratov",
      "Asia/Atyrau",
      "Europe/Kirov",
      "Europe/Astrakhan",
      "Europe/Samara",
      "Asia/Oral",
      "Asia/Qatar",
      "Asia/Kuwait",
      "Asia/Bahrain",
      "Asia/Aden",
    ],
    "CEMT" => vec![
      "Europe/Berlin",
    ],
    "-03" => vec![
      "America/Argentina/Cordoba",
      "Atlantic/Stanley",
      "Brazil/East",
      "America/Argentina/San_Juan",
      "America/Cayenne",
      "America/Sao_Paulo",
      "America/Recife",
      "Chile/Continental",
      "America/Argentina/Catamarca",
      "America/Jujuy",
      "America/Argentina/Buenos_Aires",
      "America/Boa_Vista",
      "America/Catamarca",
      "America/Argentina/Tucuman",
      "America/Rosario",
      "America/Argentina/Ushuaia",
      "America/Araguaina",
      "Antarctica/Palmer",
      "America/Danmarkshavn",
      "America/Belem",
      "America/Argentina/Jujuy",
      "America/Cordoba",
      "America/Guyana",
      "America/Mendoza",
      "America/Cuiaba",
      "America/Asuncion",
      "America/Argentina/San_Luis",
      "America/Maceio",
      "America/Manaus",
      "America/Santiago",
      "America/Fortaleza",
      "America/Godthab",
      "America/Campo_Grande",
      "America/Nuuk",
      "America/Punta_Arenas",
      "America/Paramaribo",
      "Antarctica/Rothera",
      "America/Porto_Velho",
      "America/Argentina/Mendoza",
      "America/Santarem",
      "Brazil/West",
      "America/Argentina/Rio_Gallegos",
      "America/Argentina/Salta",
      "America/Argentina/ComodRivadavia",
      "America/Buenos_Aires",
      "America/Miquelon",
      "America/Argentina/La_Rioja",
      "America/Bahia",
      "America/Montevideo",
    ],
    "EDDT" => vec![
      "America/Iqaluit",
    ],
    "EET" => vec![
      "Europe/Mariehamn",
      "Asia/Istanbul",
      "Europe/Zaporozhye",
      "Europe/Warsaw",
      "Asia/Famagusta",
      "Egypt",
      "Europe/Uzhgorod",
      "Europe/Chisinau",
      "Europe/Simferopol",
      "Europe/Sofia",
      "Europe/Tallinn",
      "Turkey",
      "Europe/Tiraspol",
      "Asia/Amman",
      "Europe/Bucharest",
      "Asia/Nicosia",
      "Europe/Vilnius",
      "Asia/Damascus",
      "Asia/Gaza",
      "Asia/Hebron",
      "EET",
      "Europe/Istanbul",
      "Europe/Minsk",
      "Africa/Cairo",
      "Europe/Kaliningrad",
      "Europe/Riga",
      "Libya",
      "W-SU",
      "Poland",
      "Africa/Tripoli",
      "Europe/Moscow",
      "Europe/Kiev",
      "Europe/Nicosia",
      "Europe/Helsinki",
      "Europe/Athens",
      "Asia/Beirut",
    ],
    "+1345" => vec![
      "Pacific/Chatham",
      "NZ-CHAT",
    ],
    "EPT" => vec![
      "Canada/Eastern",
      "America/Detroit",
      "US/Michigan",
      "America/Thunder_Bay",
      "America/New_York",
      "America/Montreal",
      "EST5EDT",
      "America/Iqaluit",
      "US/Eastern",
      "America/Toronto",
      "America/Nipigon",
    ],
    "-11" => vec![
      "Pacific/Apia",
      "Pacific/Enderbury",
      "Pacific/Niue",
      "Pacific/Fakaofo",
    ],
    "+0430" => vec![
      "Asia/Kabul",
      "Asia/Tehran",
      "Iran",
    ],
    "JMT" => vec![
      "Israel",
      "Asia/Jerusalem",
      "Asia/Tel_Aviv",
    ],
    "NZST" => vec![
      "Antarctica/South_Pole",
      "Pacific/Auckland",
      "Antarctica/McMurdo",
      "NZ",
    ],
    "-1130" => vec![
      "Pacific/Apia",
      "Pacific/Niue",
    ],
    "WET" => vec![
      "Portugal",
      "Africa/Algiers",
      "Atlantic/Faroe",
      "Atlantic/Faeroe",
      "Europe/Lisbon",
      "Europe/Andorra",
      "Africa/Ceuta",
      "Europe/Luxembourg",
      "Europe/Monaco",
      "Europe/Paris",
      "WET",
      "Atlantic/Canary",
      "Atlantic/Madeira",
      "Europe/Brussels",
      "Europe/Madrid",
      "Atlantic/Azores",
    ],
    "+06" => vec![
      "Asia/Dushanbe",
      "Asia/Almaty",
      "Asia/Oral",
      "Asia/Thimbu",
      "Asia/Krasnoyarsk",
      "Asia/Tashkent",
      "Antarctica/Vostok",
      "Asia/Ashkhabad",
      "Asia/Novokuznetsk",
      "Asia/Omsk",
      "Asia/Novosibirsk",
      "Indian/Chagos",
      "Asia/Barnaul",
      "Asia/Qyzylorda",
      "Asia/Tomsk",
      "Asia/Dhaka",
      "Asia/Samarkand",
      "Asia/Aqtobe",
      "Asia/Colombo",
      "Antarctica/Mawson",
      "Asia/Hovd",
      "Asia/Kashgar",
      "Asia/Aqtau",
      "Asia/Atyrau",
      "Asia/Urumqi",
      "Asia/Thimphu",
      "Asia/Yekaterinburg",
      "Asia/Ashgabat",
      "Asia/Dacca",
      "Asia/Bishkek",
      "Asia/Qostanay",
    ],
    "SST" => vec![
      "Pacific/Midway",
      "Pacific/Samoa",
      "US/Samoa",
      "Pacific/Pago_Pago",
    ],
    "+1112" => vec![
      "Pacific/Norfolk",
    ],
    "+0230" => vec![
      "Africa/Mogadishu",
      "Africa/Nairobi",
      "Africa/Asmera",
      "Africa/Addis_Ababa",
      "Africa/Asmara",
      "Africa/Dar_es_Salaam",
      "Africa/Djibouti",
      "Africa/Kampala",
      "Indian/Comoro",
      "Indian/Antananarivo",
      "Indian/Mayotte",
    ],
    "+09" => vec![
      "Asia/Macau",
      "Pacific/Bougainville",
      "Asia/Ust-Nera",
      "Asia/Jakarta",
      "Singapore",
      "Asia/Yakutsk",
      "Pacific/Pohnpei",
      "Asia/Saigon",
      "Kwajalein",
      "Asia/Ujung_Pandang",
      "Asia/Kuching",
      "Asia/Sakhalin",
      "Pacific/Kwajalein",
      "Asia/Irkutsk",
      "Pacific/Guam",
      "Pacific/Majuro",
      "Pacific/Palau",
      "Pacific/Ponape",
      "Pacific/Saipan",
      "Asia/Kuala_Lumpur",
      "Asia/Rangoon",
      "Asia/Vladivostok",
      "Asia/Choibalsan",
      "Asia/Macao",
      "Pacific/Yap",
      "Pacific/Truk",
      "Asia/Dili",
      "Asia/Ho_Chi_Minh",
      "Asia/Khandyga",
      "Pacific/Chuuk",
      "Asia/Makassar",
      "Asia/Ulaanbaatar",
      "Pacific/Kosrae",
      "Pacific/Nauru",
      "Asia/Ulan_Bator",
      "Asia/Chita",
      "Asia/Yangon",
      "Asia/Jayapura",
      "Asia/Singapore",
      "Asia/Pontianak",
    ],
    "CAST" => vec![
      "Africa/Juba",
      "Africa/Khartoum",
    ],
    "HKST" => vec![
      "Asia/Hong_Kong",
      "Hongkong",
    ],
    "-0130" => vec![
      "America/Montevideo",
    ],
    "IMT" => vec![
      "Asia/Irkutsk",
      "Asia/Istanbul",
      "Europe/Istanbul",
      "Europe/Sofia",
      "Turkey",
    ],
    "ChST" => vec![
      "Pacific/Guam",
      "Pacific/Saipan",
    ],
    "+1220" => vec![
      "Pacific/Tongatapu",
    ],
    "-0530" => vec![
      "America/Belize",
    ],
    "CDDT" => vec![
      "America/Rankin_Inlet",
      "America/Resolute",
    ],
    "AKDT" => vec![
      "America/Sitka",
      "US/Alaska",
      "America/Nome",
      "America/Anchorage",
      "America/Metlakatla",
      "America/Juneau",
      "America/Yakutat",
    ],
    "-0345" => vec![
      "America/Guyana",
    ],
    "+1230" => vec![
      "Pacific/Norfolk",
    ],
    "LMT" => vec![
      "Pacific/Palau",
      "America/Atka",
      "Pacific/Pohnpei",
      "US/Alaska",
      "America/Lima",
      "Pacific/Yap",
      "Pacific/Ponape",
      "America/Nome",
      "US/Aleutian",
      "America/Adak",
      "Pacific/Samoa",
      "Pacific/Pago_Pago",
      "America/Juneau",
      "America/Sitka",
      "America/Yakutat",
      "Asia/Manila",
      "Pacific/Chuuk",
      "Pacific/Kosrae",
      "Pacific/Midway",
      "America/Anchorage",
      "Pacific/Saipan",
      "Africa/Sao_Tome",
      "Pacific/Guam",
      "Pacific/Truk",
      "US/Samoa",
      "America/Metlakatla",
      "Pacific/Apia",
    ],
    "TBMT" => vec![
      "Asia/Tbilisi",
    ],
    "EMT" => vec![
      "Pacific/Easter",
      "Chile/EasterIsland",
    ],
    "PKST" => vec![
      "Asia/Karachi",
    ],
    "+0820" => vec![
      "Asia/Kuching",
    ],
    "ACST" => vec![
      "Australia/Adelaide",
      "Australia/Yancowinna",
      "Australia/Broken_Hill",
      "Australia/North",
      "Australia/Darwin",
      "Australia/South",
    ],
    "ADDT" => vec![
      "America/Pangnirtung",
      "America/Goose_Bay",
    ],
    "WAT" => vec![
      "Africa/Douala",
      "Africa/Brazzaville",
      "Africa/Sao_Tome",
      "Africa/Bangui",
      "Africa/Kinshasa",
      "Africa/Windhoek",
      "Africa/Porto-Novo",
      "Africa/Luanda",
      "Africa/Lagos",
      "Africa/Malabo",
      "Africa/Libreville",
      "Africa/Niamey",
      "Africa/Ndjamena",
    ],
    "SDMT" => vec![
      "America/Santo_Domingo",
    ],
    "YWT" => vec![
      "America/Dawson",
      "Canada/Yukon",
      "America/Whitehorse",
      "America/Yakutat",
    ],
    "+0945" => vec![
      "Australia/Eucla",
    ],
    "PMMT" => vec![
      "Pacific/Port_Moresby",
      "Pacific/Bougainville",
    ],
    "PPT" => vec![
      "America/Sitka",
      "America/Vancouver",
      "Canada/Pacific",
      "US/Pacific",
      "US/Pacific-New",
      "PST8PDT",
      "America/Ensenada",
      "America/Metlakatla",
      "America/Los_Angeles",
      "America/Juneau",
      "America/Santa_Isabel",
      "America/Dawson_Creek",
      "America/Tijuana",
      "Mexico/BajaNorte",
      "America/Fort_Nelson",
    ],
    "+0020" => vec![
      "Europe/Amsterdam",
      "Africa/Accra",
    ],
    "+0530" => vec![
      "Asia/Thimphu",
      "Asia/Dhaka",
      "Asia/Kathmandu",
      "Asia/Colombo",
      "Asia/Katmandu",
      "Asia/Thimbu",
      "Asia/Karachi",
      "Asia/Dacca",
    ],
    "+0630" => vec![
      "Asia/Rangoon",
      "Asia/Karachi",
      "Asia/Yangon",
      "Asia/Dacca",
      "Asia/Kolkata",
      "Asia/Calcutta",
      "Asia/Dhaka",
      "Asia/Colombo",
      "Indian/Cocos",
    ],
    "+0130" => vec![
      "Africa/Windhoek",
    ],
    "+08" => vec![
      "Asia/Barnaul",
      "Asia/Novosibirsk",
      "Asia/Pontianak",
      "Asia/Ujung_Pandang",
      "Asia/Choibalsan",
      "Antarctica/Casey",
      "Asia/Dili",
      "Asia/Singapore",
      "Asia/Chita",
      "Asia/Irkutsk",
      "Asia/Ust-Nera",
      "Asia/Ulaanbaatar",
      "Asia/Yakutsk",
      "Singapore",
      "Asia/Jakarta",
      "Asia/Krasnoyarsk",
      "Asia/Makassar",
      "Asia/Ulan_Bator",
      "Asia/Brunei",
      "Asia/Novokuznetsk",
      "Asia/Tomsk",
      "Asia/Saigon",
      "Asia/Hovd",
      "Asia/Kuala_Lumpur",
      "Asia/Kuching",
      "Asia/Ho_Chi_Minh",
      "Asia/Khandyga",
    ],
    "NZMT" => vec![
      "NZ",
      "Antarctica/McMurdo",
      "Pacific/Auckland",
      "Antarctica/South_Pole",
    ],
    "+0120" => vec![
      "Europe/Amsterdam",
    ],
    "+1245" => vec![
      "NZ-CHAT",
      "Pacific/Chatham",
    ],
    "KMT" => vec![
      "Europe/Kiev",
      "Jamaica",
      "America/Jamaica",
      "Europe/Vilnius",
      "America/Grand_Turk",
    ],
    "CDT" => vec![
      "Asia/Macao",
      "America/Louisville",
      "America/Pangnirtung",
      "America/Matamoros",
      "Asia/Chongqing",
      "Mexico/General",
      "America/Chihuahua",
      "America/Costa_Rica",
      "America/Managua",
      "America/Bahia_Banderas",
      "America/Menominee",
      "America/Guatemala",
      "ROC",
      "America/Tegucigalpa",
      "America/Havana",
      "America/Merida",
      "America/El_Salvador",
      "Asia/Taipei",
      "America/Ojinaga",
      "Asia/Chungking",
      "US/East-Indiana",
      "America/North_Dakota/Center",
      "America/Indiana/Vevay",
      "America/Indiana/Marengo",
      "America/Indiana/Tell_City",
      "Cuba",
      "America/Rankin_Inlet",
      "America/Coral_Harbour",
      "America/Fort_Wayne",
      "America/Indiana/Petersburg",
      "America/Knox_IN",
      "PRC",
      "America/Indiana/Vincennes",
      "America/Monterrey",
      "America/Cancun",
      "America/Indiana/Indianapolis",
      "America/Mexico_City",
      "US/Central",
      "CST6CDT",
      "America/North_Dakota/New_Salem",
      "Asia/Harbin",
      "America/Iqaluit",
      "America/Chicago",
      "America/Cambridge_Bay",
      "Asia/Macau",
      "America/Resolute",
      "Asia/Shanghai",
      "America/Atikokan",
      "America/Indiana/Knox",
      "America/North_Dakota/Beulah",
      "Canada/Central",
      "America/Kentucky/Monticello",
      "America/Indiana/Winamac",
      "America/Belize",
      "America/Indianapolis",
      "America/Kentucky/Louisville",
      "US/Indiana-Starke",
      "America/Winnipeg",
      "America/Rainy_River",
    ],
    "MWT" => vec![
      "US/Arizona",
      "Canada/Mountain",
      "America/Yellowknife",
      "America/Swift_Current",
      "MST7MDT",
      "US/Mountain",
      "America/Denver",
      "America/Phoenix",
      "Navajo",
      "Canada/Saskatchewan",
      "America/Edmonton",
      "America/Boise",
      "America/North_Dakota/Center",
      "America/North_Dakota/Beulah",
      "America/Regina",
      "America/North_Dakota/New_Salem",
      "America/Cambridge_Bay",
      "America/Shiprock",
    ],
    "PPMT" => vec![
      "America/Port-au-Prince",
    ],
    "HDT" => vec![
      "Pacific/Johnston",
      "US/Aleutian",
      "America/Atka",
      "America/Adak",
      "US/Hawaii",
      "Pacific/Honolulu",
    ],
    "-07" => vec![
      "Chile/EasterIsland",
      "Pacific/Easter",
    ],
    "EAT" => vec![
      "Indian/Antananarivo",
      "Africa/Addis_Ababa",
      "Africa/Kampala",
      "Indian/Mayotte",
      "Africa/Djibouti",
      "Africa/Juba",
      "Africa/Nairobi",
      "Africa/Mogadishu",
      "Africa/Dar_es_Salaam",
      "Indian/Comoro",
      "Africa/Khartoum",
      "Africa/Asmera",
      "Africa/Asmara",
    ],
    "NDT" => vec![
      "America/St_Johns",
      "Canada/Newfoundland",
      "America/Goose_Bay",
    ],
    "+07" => vec![
      "Asia/Tashkent",
      "Asia/Vientiane",
      "Indian/Christmas",
      "Singapore",
      "Asia/Novokuznetsk",
      "Asia/Ho_Chi_Minh",
      "Asia/Saigon",
      "Asia/Ulaanbaatar",
      "Asia/Bishkek",
      "Antarctica/Davis",
      "Asia/Almaty",
      "Asia/Bangkok",
      "Asia/Tomsk",
      "Asia/Ulan_Bator",
      "Asia/Krasnoyarsk",
      "Asia/Phnom_Penh",
      "Asia/Irkutsk",
      "Asia/Barnaul",
      "Asia/Dacca",
      "Asia/Dhaka",
      "Asia/Novosibirsk",
      "Asia/Kuala_Lumpur",
      "Asia/Dushanbe",
      "Asia/Singapore",
      "Asia/Hovd",
      "Asia/Choibalsan",
      "Asia/Omsk",
    ],
    "MSD" => vec![
      "Europe/Uzhgorod",
      "W-SU",
      "Europe/Kiev",
      "Europe/Chisinau",
      "Europe/Moscow",
      "Europe/Simferopol",
      "Europe/Vilnius",
      "Europe/Kaliningrad",
      "Europe/Minsk",
      "Europe/Zaporozhye",
      "Europe/Tallinn",
      "Europe/Tiraspol",
      "Europe/Riga",
    ],
    "HMT" => vec![
      "America/Havana",
      "Asia/Calcutta",
      "Atlantic/Azores",
      "Asia/Kolkata",
      "Cuba",
      "Europe/Helsinki",
      "Asia/Dacca",
      "Europe/Mariehamn",
      "Asia/Dhaka",
    ],
    "-08" => vec![
      "Pacific/Pitcairn",
    ],
    "MST" => vec![
      "America/Creston",
      "America/Swift_Current",
      "MST7MDT",
      "America/Edmonton",
      "America/Inuvik",
      "America/Santa_Isabel",
      "America/Bahia_Banderas",
      "America/Cambridge_Bay",
      "America/Chihuahua",
      "America/Dawson_Creek",
      "America/North_Dakota/New_Salem",
      "America/Tijuana",
      "Canada/Mountain",
      "America/Boise",
      "America/Whitehorse",
      "Europe/Moscow",
      "America/Hermosillo",
      "Mexico/General",
      "Navajo",
      "America/Mazatlan",
      "America/Yellowknife",
      "America/North_Dakota/Beulah",
      "US/Mountain",
      "Mexico/BajaNorte",
      "America/Shiprock",
      "America/Ensenada",
      "Canada/Yukon",
      "America/Ojinaga",
      "America/Phoenix",
      "Mexico/BajaSur",
      "America/Fort_Nelson",
      "America/Mexico_City",
      "America/Regina",
      "Canada/Saskatchewan",
      "America/Denver",
      "US/Arizona",
      "W-SU",
      "America/Dawson",
      "America/North_Dakota/Center",
    ],
    "+04" => vec![
      "Indian/Mahe",
      "Asia/Baku",
      "Europe/Volgograd",
      "Asia/Muscat",
      "Asia/Oral",
      "Asia/Baghdad",
      "Asia/Aqtau",
      "Asia/Ashgabat",
      "Asia/Qatar",
      "Asia/Yekaterinburg",
      "Indian/Reunion",
      "Europe/Astrakhan",
      "Asia/Istanbul",
      "Europe/Samara",
      "Europe/Ulyanovsk",
      "Iran",
      "Asia/Qyzylorda",
      "Asia/Atyrau",
      "Europe/Kirov",
      "Turkey",
      "Asia/Tbilisi",
      "Europe/Saratov",
      "Asia/Aqtobe",
      "Asia/Ashkhabad",
      "Asia/Yerevan",
      "Indian/Mauritius",
      "Asia/Bahrain",
      "Asia/Samarkand",
      "Asia/Qostanay",
      "Asia/Dubai",
      "Europe/Istanbul",
      "Asia/Tehran",
      "Asia/Kabul",
    ],
    "+0245" => vec![
      "Indian/Mayotte",
      "Africa/Asmara",
      "Africa/Dar_es_Salaam",
      "Africa/Asmera",
      "Indian/Antananarivo",
      "Africa/Nairobi",
      "Indian/Comoro",
      "Africa/Mogadishu",
      "Africa/Addis_Ababa",
      "Africa/Kampala",
      "Africa/Djibouti",
    ],
    "IST" => vec![
      "Asia/Jerusalem",
      "Eire",
      "Israel",
      "Asia/Gaza",
      "Asia/Calcutta",
      "Europe/Dublin",
      "Asia/Kolkata",
      "Asia/Tel_Aviv",
      "Asia/Hebron",
    ],
    "YDT" => vec![
      "America/Yakutat",
      "Canada/Yukon",
      "America/Dawson",
      "America/Juneau",
      "America/Whitehorse",
    ],
    "-0330" => vec![
      "America/Montevideo",
      "America/Paramaribo",
    ],
    "AWT" => vec![
      "America/Anchorage",
      "America/Pangnirtung",
      "America/Glace_Bay",
      "America/Blanc-Sablon",
      "America/Halifax",
      "Canada/Atlantic",
      "US/Alaska",
      "America/Moncton",
      "America/Puerto_Rico",
    ],
    "IDDT" => vec![
      "Asia/Tel_Aviv",
      "Israel",
      "Asia/Jerusalem",
    ],
    "-05" => vec![
      "America/Eirunepe",
      "America/Guayaquil",
      "Chile/Continental",
      "America/Bogota",
      "Brazil/Acre",
      "Chile/EasterIsland",
      "Pacific/Easter",
      "Pacific/Galapagos",
      "America/Porto_Acre",
      "America/Lima",
      "America/Santiago",
      "America/Rio_Branco",
      "America/Punta_Arenas",
    ],
    "EST" => vec![
      "America/Panama",
      "America/Knox_IN",
      "America/New_York",
      "America/Montreal",
      "America/Rankin_Inlet",
      "America/Santo_Domingo",
      "America/Fort_Wayne",
      "America/Iqaluit",
      "America/Indiana/Knox",
      "America/Indiana/Vincennes",
      "America/Detroit",
      "America/Kentucky/Monticello",
      "America/Cayman",
      "America/Thunder_Bay",
      "Jamaica",
      "America/Merida",
      "US/Michigan",
      "America/Indiana/Petersburg",
      "America/Moncton",
      "America/Louisville",
      "America/Managua",
      "America/Nassau",
      "America/Grand_Turk",
      "America/Indiana/Vevay",
      "America/Nipigon",
      "America/Chicago",
      "America/Indiana/Tell_City",
      "America/Jamaica",
      "US/Indiana-Starke",
      "America/Menominee",
      "America/Indianapolis",
      "America/Resolute",
      "US/Central",
      "America/Port-au-Prince",
      "America/Kentucky/Louisville",
      "US/East-Indiana",
      "America/Pangnirtung",
      "America/Coral_Harbour",
      "America/Toronto",
      "America/Indiana/Indianapolis",
      "America/Atikokan",
      "US/Eastern",
      "America/Indiana/Marengo",
      "Canada/Eastern",
      "EST5EDT",
      "America/Cancun",
      "America/Cambridge_Bay",
      "America/Indiana/Winamac",
    ],
    "AWST" => vec![
      "Australia/West",
      "Australia/Perth",
    ],
    "MEST" => vec![
      "MET",
    ],
    "SMT" => vec![
      "Europe/Simferopol",
      "Chile/Continental",
      "America/Santiago",
      "Atlantic/Stanley",
      "America/Punta_Arenas",
      "Singapore",
      "Asia/Singapore",
      "Asia/Kuala_Lumpur",
    ],
    "EDT" => vec![
      "America/Grand_Turk",
      "America/Fort_Wayne",
      "America/Kentucky/Louisville",
      "America/Thunder_Bay",
      "US/East-Indiana",
      "America/Cancun",
      "EST5EDT",
      "America/Port-au-Prince",
      "America/Louisville",
      "US/Eastern",
      "America/Indiana/Winamac",
      "America/Nassau",
      "America/Indiana/Indianapolis",
      "America/Toronto",
      "America/Santo_Domingo",
      "America/Indiana/Vincennes",
      "America/Jamaica",
      "US/Michigan",
      "America/Detroit",
      "America/Indiana/Tell_City",
      "America/Iqaluit",
      "America/Indiana/Marengo",
      "America/Indiana/Petersburg",
      "America/Nipigon",
      "America/Indiana/Vevay",
      "America/Pangnirtung",
      "America/New_York",
      "America/Montreal",
      "America/Indianapolis",
      "Jamaica",
      "America/Kentucky/Monticello",
      "Canada/Eastern",
    ],
    "TMT" => vec![
      "Asia/Tehran",
      "Europe/Tallinn",
      "Iran",
    ],
    "PWT" => vec![
      "Mexico/BajaNorte",
      "America/Sitka",
      "America/Dawson_Creek",
      "US/Pacific-New",
      "America/Juneau",
      "PST8PDT",
      "America/Santa_Isabel",
      "America/Los_Angeles",
      "America/Ensenada",
      "US/Pacific",
      "America/Fort_Nelson",
      "Canada/Pacific",
      "America/Metlakatla",
      "America/Tijuana",
      "America/Vancouver",
    ],
    "BMT" => vec![
      "Asia/Baghdad",
      "Europe/Chisinau",
      "Europe/Vaduz",
      "Asia/Phnom_Penh",
      "America/Barbados",
      "Asia/Vientiane",
      "Europe/Brussels",
      "Europe/Bucharest",
      "Asia/Bangkok",
      "Asia/Jakarta",
      "America/Bogota",
      "Europe/Busingen",
      "Europe/Tiraspol",
      "Europe/Zurich",
    ],
    "SAST" => vec![
      "Africa/Maseru",
      "Africa/Mbabane",
      "Africa/Johannesburg",
      "Africa/Windhoek",
    ],
    "+0545" => vec![
      "Asia/Kathmandu",
      "Asia/Katmandu",
    ],
    "BDST" => vec![
      "Europe/Guernsey",
      "Europe/Jersey",
      "Europe/Isle_of_Man",
      "Europe/London",
      "Europe/Gibraltar",
      "GB-Eire",
      "GB",
      "Europe/Belfast",
    ],
    "NZDT" => vec![
      "Antarctica/South_Pole",
      "NZ",
      "Pacific/Auckland",
      "Antarctica/McMurdo",
    ],
    "+01" => vec![
      "Atlantic/Madeira",
      "Africa/El_Aaiun",
      "Africa/Casablanca",
    ],
    "BDT" => vec![
      "America/Nome",
      "US/Aleutian",
      "America/Adak",
      "America/Atka",
    ],
    "+02" => vec![
      "Europe/Ulyanovsk",
      "Antarctica/Troll",
    ],
    "FFMT" => vec![
      "America/Martinique",
    ],
    "HKWT" => vec![
      "Hongkong",
      "Asia/Hong_Kong",
    ],
    "+0930" => vec![
      "Asia/Jayapura",
    ],
    "WITA" => vec![
      "Asia/Makassar",
      "Asia/Pontianak",
      "Asia/Ujung_Pandang",
    ],
    "ACDT" => vec![
      "Australia/North",
      "Australia/South",
      "Australia/Yancowinna",
      "Australia/Adelaide",
      "Australia/Broken_Hill",
      "Australia/Darwin",
    ],
    "+1130" => vec![
      "Australia/LHI",
      "Pacific/Norfolk",
      "Australia/Lord_Howe",
      "Pacific/Nauru",
    ],
    "-06" => vec![
      "Pacific/Galapagos",
      "Chile/EasterIsland",
      "Pacific/Easter",
    ],
    "WIB" => vec![
      "Asia/Pontianak",
      "Asia/Jakarta",
    ],
    "LST" => vec![
      "Europe/Riga",
    ],
    "+1030" => vec![
      "Australia/LHI",
      "Australia/Lord_Howe",
    ],
    "NPT" => vec![
      "America/Adak",
      "America/Nome",
      "America/St_Johns",
      "America/Goose_Bay",
      "Canada/Newfoundland",
      "America/Atka",
      "US/Aleutian",
    ],
    "PLMT" => vec![
      "Asia/Saigon",
      "Asia/Ho_Chi_Minh",
    ],
    "AKST" => vec![
      "America/Nome",
      "America/Yakutat",
      "America/Juneau",
      "America/Metlakatla",
      "America/Sitka",
      "America/Anchorage",
      "US/Alaska",
    ],
    "GDT" => vec![
      "Pacific/Guam",
      "Pacific/Saipan",
    ],
    "IDT" => vec![
      "Asia/Tel_Aviv",
      "Israel",
      "Asia/Gaza",
      "Asia/Hebron",
      "Asia/Jerusalem",
    ],
    "-1040" => vec![
      "Pacific/Kiritimati",
    ],
    "RMT" => vec![
      "Europe/Vatican",
      "Europe/San_Marino",
      "Europe/Rome",
      "Asia/Rangoon",
      "Asia/Yangon",
      "Europe/Riga",
    ],
    "-12" => vec![
      "Pacific/Enderbury",
      "Kwajalein",
      "Pacific/Kwajalein",
    ],
    "+12" => vec![
      "Asia/Kamchatka",
      "Pacific/Nauru",
      "Pacific/Norfolk",
      "Asia/Anadyr",
      "Asia/Sakhalin",
      "Pacific/Funafuti",
      "Pacific/Fiji",
      "Asia/Ust-Nera",
      "Pacific/Kwajalein",
      "Pacific/Efate",
      "Asia/Srednekolymsk",
      "Pacific/Tarawa",
      "Pacific/Wallis",
      "Pacific/Majuro",
      "Pacific/Kosrae",
      "Kwajalein",
      "Pacific/Noumea",
      "Pacific/Wake",
      "Asia/Magadan",
    ],
    "PMT" => vec![
      "Asia/Yekaterinburg",
      "Asia/Pontianak",
      "Europe/Bratislava",
      "Europe/Monaco",
      "Africa/Algiers",
      "America/Paramaribo",
      "Europe/Paris",
      "Europe/Prague",
      "Africa/Tunis",
    ],
    "AHST" => vec![
      "America/Adak",
      "America/Anchorage",
      "America/Atka",
      "US/Alaska",
      "US/Aleutian",
    ],
    "AHDT" => vec![
      "America/Anchorage",
      "US/Alaska",
    ],
    "CMT" => vec![
      "America/Argentina/Mendoza",
      "America/La_Paz",
      "America/Argentina/Ushuaia",
      "America/Argentina/Buenos_Aires",
      "America/Cordoba",
      "America/Argentina/San_Juan",
      "America/Argentina/La_Rioja",
      "America/Caracas",
      "America/Catamarca",
      "America/Argentina/Rio_Gallegos",
      "America/Argentina/San_Luis",
      "America/Argentina/Jujuy",
      "America/Buenos_Aires",
      "America/Mendoza",
      "America/Cayman",
      "America/Panama",
      "America/Argentina/Tucuman",
      "America/Jujuy",
      "America/Rosario",
      "America/Argentina/ComodRivadavia",
      "Europe/Chisinau",
      "America/Argentina/Cordoba",
      "America/Argentina/Catamarca",
      "Europe/Copenhagen",
      "Europe/Tiraspol",
      "America/Argentina/Salta",
    ],
    "PDDT" => vec![
      "America/Inuvik",
    ],
    "MDST" => vec![
      "Europe/Moscow",
      "W-SU",
    ],
    "CWT" => vec![
      "America/Fort_Wayne",
      "America/Indiana/Vevay",
      "America/Coral_Harbour",
      "America/Indianapolis",
      "America/Indiana/Marengo",
      "America/Kentucky/Louisville",
      "America/Kentucky/Monticello",
      "America/Mexico_City",
      "America/Rainy_River",
      "America/Indiana/Tell_City",
      "CST6CDT",
      "America/Indiana/Vincennes",
      "Canada/Central",
      "America/Indiana/Petersburg",
      "America/Indiana/Winamac",
      "America/Louisville",
      "America/Knox_IN",
      "America/Winnipeg",
      "Mexico/General",
      "US/Central",
      "US/East-Indiana",
      "US/Indiana-Starke",
      "America/Menominee",
      "America/Atikokan",
      "America/Indiana/Knox",
      "America/Indiana/Indianapolis",
      "America/Chicago",
    ],
    "AMT" => vec![
      "America/Asuncion",
      "Europe/Amsterdam",
      "Europe/Athens",
    ],
    "-04" => vec![
      "America/Argentina/San_Juan",
      "America/Argentina/Ushuaia",
      "America/Boa_Vista",
      "America/Argentina/Catamarca",
      "America/Argentina/Salta",
      "America/Cordoba",
      "America/Guyana",
      "America/Argentina/Mendoza",
      "America/La_Paz",
      "America/Argentina/La_Rioja",
      "America/Cuiaba",
      "America/Caracas",
      "America/Argentina/Jujuy",
      "America/Bogota",
      "America/Manaus",
      "America/Buenos_Aires",
      "America/Rio_Branco",
      "America/Santarem",
      "Antarctica/Palmer",
      "America/Guayaquil",
      "Atlantic/Stanley",
      "Brazil/West",
      "Chile/Continental",
      "America/Argentina/ComodRivadavia",
      "America/Rosario",
      "America/Asuncion",
      "America/Porto_Acre",
      "America/Argentina/Cordoba",
      "America/Lima",
      "Brazil/Acre",
      "America/Cayenne",
      "America/Argentina/Buenos_Aires",
      "America/Argentina/San_Luis",
      "America/Santiago",
      "America/Jujuy",
      "America/Montevideo",
      "America/Eirunepe",
      "America/Mendoza",
      "America/Porto_Velho",
      "America/Punta_Arenas",
      "America/Campo_Grande",
      "America/Argentina/Tucuman",
      "America/Catamarca",
      "America/Argentina/Rio_Gallegos",
    ],
    "YPT" => vec![
      "America/Yakutat",
      "Canada/Yukon",
      "America/Whitehorse",
      "America/Dawson",
    ],
    "APT" => vec![
      "US/Alaska",
      "America/Anchorage",
      "America/Pangnirtung",
      "America/Puerto_Rico",
      "America/Halifax",
      "Canada/Atlantic",
      "America/Glace_Bay",
      "America/Blanc-Sablon",
      "America/Moncton",
    ],
    "MDDT" => vec![
      "America/Yellowknife",
      "America/Cambridge_Bay",
    ],
    "QMT" => vec![
      "America/Guayaquil",
    ],
    "NDDT" => vec![
      "Canada/Newfoundland",
      "America/St_Johns",
    ],
    "SJMT" => vec![
      "America/Costa_Rica",
    ],
    "+14" => vec![
      "Pacific/Tongatapu",
      "Pacific/Kiritimati",
      "Asia/Anadyr",
      "Pacific/Apia",
    ],
    "FMT" => vec![
      "Atlantic/Madeira",
    ],
    "DMT" => vec![
      "Europe/Dublin",
      "Eire",
    ],
    "+0845" => vec![
      "Australia/Eucla",
    ],
    "AEDT" => vec![
      "Australia/Queensland",
      "Australia/Sydney",
      "Australia/Lindeman",
      "Australia/Tasmania",
      "Australia/NSW",
      "Antarctica/Macquarie",
      "Australia/Hobart",
      "Australia/Brisbane",
      "Australia/Victoria",
      "Australia/Canberra",
      "Australia/Currie",
      "Australia/ACT",
      "Australia/Melbourne",
    ],
    "WIT" => vec![
      "Asia/Jayapura",
    ],
    "+0720" => vec![
      "Singapore",
      "Asia/Jakarta",
      "Asia/Kuala_Lumpur",
      "Asia/Singapore",
    ],
    "PKT" => vec![
      "Asia/Karachi",
    ],
    "+0730" => vec![
      "Asia/Singapore",
      "Asia/Brunei",
      "Asia/Kuching",
      "Asia/Jakarta",
      "Singapore",
      "Asia/Kuala_Lumpur",
      "Asia/Pontianak",
    ],
    "CET" => vec![
      "Libya",
      "Arctic/Longyearbyen",
      "Europe/Brussels",
      "Europe/Athens",
      "Europe/Paris",
      "Europe/Bratislava",
      "Europe/Sofia",
      "Europe/Riga",
      "Europe/Tiraspol",
      "Europe/Vienna",
      "Europe/Belgrade",
      "Europe/Vatican",
      "Europe/Chisinau",
      "Europe/Prague",
      "Europe/Simferopol",
      "Europe/Oslo",
      "Europe/Skopje",
      "Europe/Minsk",
      "Portugal",
      "Poland",
      "CET",
      "Europe/Ljubljana",
      "Europe/Uzhgorod",
      "Atlantic/Jan_Mayen",
      "Africa/Tripoli",
      "Europe/Tallinn",
      "Europe/Zagreb",
      "Europe/Sarajevo",
      "Europe/Podgorica",
      "Africa/Algiers",
      "Europe/Andorra",
      "Europe/Budapest",
      "Europe/Copenhagen",
      "Europe/Madrid",
      "Europe/Rome",
      "Europe/Vilnius",
      "Europe/Luxembourg",
      "Europe/Vaduz",
      "Europe/Busingen",
      "Europe/Tirane",
      "Europe/Amsterdam",
      "Europe/Gibraltar",
      "Europe/Kiev",
      "Africa/Ceuta",
      "Europe/Lisbon",
      "Africa/Tunis",
      "Europe/Monaco",
      "Europe/Stockholm",
      "Europe/San_Marino",
      "Europe/Malta",
      "Europe/Kaliningrad",
      "Europe/Warsaw",
      "Europe/Berlin",
      "Europe/Zaporozhye",
      "Europe/Zurich",
    ],
    "CEST" => vec![
      "Europe/Rome",
      "Europe/Prague",
      "Atlantic/Jan_Mayen",
      "Poland",
      "Europe/Chisinau",
      "Europe/Paris",
      "Africa/Algiers",
      "Europe/Podgorica",
      "Europe/Andorra",
      "Europe/Minsk",
      "Europe/Amsterdam",
      "Europe/Belgrade",
      "Europe/Bratislava",
      "Europe/Ljubljana",
      "Europe/Kiev",
      "Europe/Budapest",
      "Europe/Monaco",
      "Europe/San_Marino",
      "Europe/Tallinn",
      "Europe/Vatican",
      "Europe/Busingen",
      "Europe/Sofia",
      "Europe/Uzhgorod",
      "Europe/Warsaw",
      "Europe/Zaporozhye",
      "Europe/Malta",
      "Europe/Vaduz",
      "Europe/Zurich",
      "Europe/Sarajevo",
      "Europe/Brussels",
      "Europe/Lisbon",
      "Europe/Berlin",
      "Europe/Copenhagen",
      "Europe/Athens",
      "Europe/Stockholm",
      "Portugal",
      "CET",
      "Europe/Kaliningrad",
      "Arctic/Longyearbyen",
      "Europe/Vienna",
      "Europe/Tirane",
      "Europe/Tiraspol",
      "Africa/Ceuta",
      "Europe/Oslo",
      "Europe/Skopje",
      "Europe/Vilnius",
      "Europe/Simferopol",
      "Europe/Zagreb",
      "Libya",
      "Europe/Madrid",
      "Europe/Riga",
      "Africa/Tripoli",
      "Africa/Tunis",
      "Europe/Gibraltar",
      "Europe/Luxembourg",
    ],
    "-0430" => vec![
      "America/Caracas",
      "America/Curacao",
      "America/Aruba",
      "America/Lower_Princes",
      "America/Kralendijk",
      "America/Santo_Domingo",
    ],
    "NST" => vec![
      "Europe/Amsterdam",
      "America/Goose_Bay",
      "America/Adak",
      "Canada/Newfoundland",
      "America/St_Johns",
      "America/Nome",
      "US/Aleutian",
      "America/Atka",
    ],
    "PST" => vec![
      "PST8PDT",
      "US/Pacific",
      "America/Juneau",
      "America/Vancouver",
      "America/Los_Angeles",
      "America/Boise",
      "America/Fort_Nelson",
      "Mexico/BajaSur",
      "US/Pacific-New",
      "America/Mazatlan",
      "America/Creston",
      "Mexico/BajaNorte",
      "America/Inuvik",
      "America/Dawson_Creek",
      "America/Metlakatla",
      "Canada/Yukon",
      "America/Ensenada",
      "America/Whitehorse",
      "Asia/Manila",
      "America/Bahia_Banderas",
      "America/Hermosillo",
      "America/Dawson",
      "America/Santa_Isabel",
      "America/Sitka",
      "America/Tijuana",
      "Canada/Pacific",
    ],
    "HST" => vec![
      "America/Atka",
      "US/Hawaii",
      "Pacific/Johnston",
      "America/Adak",
      "Pacific/Honolulu",
      "US/Aleutian",
    ],
    "EEST" => vec![
      "Europe/Helsinki",
      "Europe/Tallinn",
      "Europe/Mariehamn",
      "Asia/Gaza",
      "Europe/Warsaw",
      "Asia/Hebron",
      "Europe/Sofia",
      "Europe/Uzhgorod",
      "Europe/Moscow",
      "Europe/Istanbul",
      "Europe/Kaliningrad",
      "Europe/Chisinau",
      "Europe/Nicosia",
      "Europe/Riga",
      "Europe/Vilnius",
      "Europe/Zaporozhye",
      "Asia/Istanbul",
      "Asia/Damascus",
      "Europe/Tiraspol",
      "Asia/Beirut",
      "Poland",
      "Turkey",
      "Europe/Bucharest",
      "Europe/Simferopol",
      "EET",
      "Asia/Amman",
      "W-SU",
      "Asia/Nicosia",
      "Europe/Athens",
      "Africa/Cairo",
      "Asia/Famagusta",
      "Europe/Kiev",
      "Europe/Minsk",
      "Egypt",
    ],
    "CST" => vec![
      "America/Rainy_River",
      "America/Iqaluit",
      "Mexico/General",
      "US/Michigan",
      "ROC",
      "America/Indiana/Winamac",
      "America/Fort_Wayne",
      "America/Menominee",
      "America/Monterrey",
      "America/Cambridge_Bay",
      "America/Hermosillo",
      "America/Indianapolis",
      "Asia/Chongqing",
      "Asia/Chungking",
      "America/Indiana/Indianapolis",
      "America/Indiana/Petersburg",
      "America/Indiana/Tell_City",
      "America/Managua",
      "America/Mexico_City",
      "America/Indiana/Knox",
      "America/Matamoros",
      "US/Central",
      "Asia/Taipei",
      "Asia/Harbin",
      "America/Costa_Rica",
      "America/North_Dakota/Center",
      "PRC",
      "America/Detroit",
      "America/Guatemala",
      "America/North_Dakota/New_Salem",
      "Asia/Macao",
      "Canada/Saskatchewan",
      "US/East-Indiana",
      "America/Chicago",
      "America/Ojinaga",
      "America/Atikokan",
      "America/Louisville",
      "Canada/Central",
      "America/Resolute",
      "America/Coral_Harbour",
      "Asia/Shanghai",
      "America/Kentucky/Monticello",
      "CST6CDT",
      "America/Merida",
      "America/Pangnirtung",
      "America/Mazatlan",
      "America/Knox_IN",
      "Mexico/BajaSur",
      "America/Indiana/Marengo",
      "US/Indiana-Starke",
      "America/North_Dakota/Beulah",
      "America/Tegucigalpa",
      "America/Indiana/Vevay",
      "America/Cancun",
      "America/Swift_Current",
      "Asia/Macau",
      "Cuba",
      "America/Regina",
      "America/Rankin_Inlet",
      "America/Chihuahua",
      "America/Thunder_Bay",
      "America/Kentucky/Louisville",
      "America/Bahia_Banderas",
      "America/Winnipeg",
      "America/El_Salvador",
      "America/Havana",
      "America/Belize",
      "America/Indiana/Vincennes",
    ],
    "AWDT" => vec![
      "Australia/West",
      "Australia/Perth",
    ],
    "KDT" => vec![
      "Asia/Seoul",
      "ROK",
    ],
    "GMT" => vec![
      "Africa/Accra",
      "Africa/Bamako",
      "Africa/Lome",
      "America/Danmarkshavn",
      "Europe/Belfast",
      "Europe/London",
      "Africa/Banjul",
      "Africa/Conakry",
      "Europe/Jersey",
      "Africa/Sao_Tome",
      "Africa/Dakar",
      "GB-Eire",
      "Europe/Dublin",
      "Europe/Guernsey",
      "Europe/Bratislava",
      "Atlantic/Reykjavik",
      "Africa/Nouakchott",
      "Europe/Prague",
      "Atlantic/St_Helena",
      "Africa/Monrovia",
      "GB",
      "Iceland",
      "Africa/Freetown",
      "Eire",
      "Africa/Abidjan",
      "Europe/Isle_of_Man",
      "Africa/Ouagadougou",
      "Europe/Gibraltar",
      "Africa/Bissau",
      "Africa/Timbuktu",
    ],
    "JDT" => vec![
      "Japan",
      "Asia/Tokyo",
    ],
    "MSK" => vec![
      "Europe/Uzhgorod",
      "Europe/Tallinn",
      "Europe/Vilnius",
      "Europe/Zaporozhye",
      "Europe/Kaliningrad",
      "W-SU",
      "Europe/Minsk",
      "Europe/Moscow",
      "Europe/Kiev",
      "Europe/Chisinau",
      "Europe/Simferopol",
      "Europe/Tiraspol",
      "Europe/Riga",
    ],
    "-0230" => vec![
      "America/Montevideo",
    ],
    "WEMT" => vec![
      "Europe/Monaco",
      "Portugal",
      "Europe/Paris",
      "Europe/Lisbon",
      "Europe/Madrid",
    ],
    "HWT" => vec![
      "US/Hawaii",
      "Pacific/Johnston",
      "Pacific/Honolulu",
    ],
    "WEST" => vec![
      "Europe/Lisbon",
      "WET",
      "Europe/Paris",
      "Europe/Madrid",
      "Portugal",
      "Africa/Ceuta",
      "Africa/Algiers",
      "Atlantic/Canary",
      "Europe/Brussels",
      "Atlantic/Madeira",
      "Atlantic/Faeroe",
      "Atlantic/Faroe",
      "Europe/Luxembourg",
      "Europe/Monaco",
    ],
    "-00" => vec![
      "Antarctica/DumontDUrville",
      "Antarctica/Macquarie",
      "Antarctica/Davis",
    ],
    "AEST" => vec![
      "Australia/Canberra",
      "Australia/Queensland",
      "Australia/Broken_Hill",
      "Australia/Victoria",
      "Australia/Yancowinna",
      "Australia/Brisbane",
      "Australia/Lord_Howe",
      "Australia/LHI",
      "Australia/Sydney",
      "Australia/Tasmania",
      "Antarctica/Macquarie",
      "Australia/Lindeman",
      "Australia/NSW",
      "Australia/ACT",
      "Australia/Hobart",
      "Australia/Currie",
      "Australia/Melbourne",
    ],
    "MPT" => vec![
      "America/Boise",
      "America/North_Dakota/New_Salem",
      "America/Edmonton",
      "America/North_Dakota/Beulah",
      "America/Swift_Current",
      "America/Cambridge_Bay",
      "America/North_Dakota/Center",
      "US/Mountain",
      "Canada/Mountain",
      "America/Regina",
      "Navajo",
      "Canada/Saskatchewan",
      "America/Shiprock",
      "MST7MDT",
      "America/Yellowknife",
      "America/Denver",
    ],
    "HKT" => vec![
      "Asia/Hong_Kong",
      "Hongkong",
    ],
  );
}
