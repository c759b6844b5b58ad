package mpd_test

// The XML form of an element of each type with only the given field set,
// generated with VERIF_C21_TABLE and compared with the names of the schema.
const c21names = `[
 {
  "Type": "MPD",
  "Field": "",
  "XML": "<MPD profiles=\"\"></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "XMLNs",
  "XML": "<MPD xmlns=\"v7\" profiles=\"\"></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "SchemaLocation",
  "XML": "<MPD xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:schemaLocation=\"v7\" profiles=\"\"></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "Id",
  "XML": "<MPD id=\"v7\" profiles=\"\"></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "Profiles",
  "XML": "<MPD profiles=\"v7\"></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "Type",
  "XML": "<MPD profiles=\"\" type=\"v7\"></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "AvailabilityStartTime",
  "XML": "<MPD profiles=\"\" availabilityStartTime=\"v7\"></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "AvailabilityEndTime",
  "XML": "<MPD profiles=\"\" availabilityEndTime=\"v7\"></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "PublishTime",
  "XML": "<MPD profiles=\"\" publishTime=\"v7\"></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "MediaPresentationDuration",
  "XML": "<MPD profiles=\"\" mediaPresentationDuration=\"PT7S\"></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "MinimumUpdatePeriod",
  "XML": "<MPD profiles=\"\" minimumUpdatePeriod=\"PT7S\"></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "MinBufferTime",
  "XML": "<MPD profiles=\"\" minBufferTime=\"PT7S\"></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "TimeShiftBufferDepth",
  "XML": "<MPD profiles=\"\" timeShiftBufferDepth=\"PT7S\"></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "SuggestedPresentationDelay",
  "XML": "<MPD profiles=\"\" suggestedPresentationDelay=\"PT7S\"></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "MaxSegmentDuration",
  "XML": "<MPD profiles=\"\" maxSegmentDuration=\"PT7S\"></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "MaxSubsegmentDuration",
  "XML": "<MPD profiles=\"\" maxSubsegmentDuration=\"PT7S\"></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "ProgramInformation",
  "XML": "<MPD profiles=\"\"><ProgramInformation></ProgramInformation></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "BaseURL",
  "XML": "<MPD profiles=\"\"><BaseURL></BaseURL></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "Location",
  "XML": "<MPD profiles=\"\"><Location></Location></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "PatchLocation",
  "XML": "<MPD profiles=\"\"><PatchLocation></PatchLocation></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "RequestParam",
  "XML": "<MPD profiles=\"\"><RequestParam></RequestParam></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "ServiceDescription",
  "XML": "<MPD profiles=\"\"><ServiceDescription id=\"0\"></ServiceDescription></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "InitializationSet",
  "XML": "<MPD profiles=\"\"><InitializationSet id=\"0\"></InitializationSet></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "InitializationGroup",
  "XML": "<MPD profiles=\"\"><InitializationGroup id=\"0\"></InitializationGroup></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "InitializationPresentation",
  "XML": "<MPD profiles=\"\"><InitializationPresentation id=\"0\"></InitializationPresentation></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "ContentProtection",
  "XML": "<MPD profiles=\"\"><ContentProtection></ContentProtection></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "Periods",
  "XML": "<MPD profiles=\"\"><Period></Period></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "Metrics",
  "XML": "<MPD profiles=\"\"><Metrics metrics=\"\"></Metrics></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "EssentialProperties",
  "XML": "<MPD profiles=\"\"><EssentialProperty></EssentialProperty></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "SupplementalProperties",
  "XML": "<MPD profiles=\"\"><SupplementalProperty></SupplementalProperty></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "UTCTimings",
  "XML": "<MPD profiles=\"\"><UTCTiming></UTCTiming></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "LeapSecondInformation",
  "XML": "<MPD profiles=\"\"><LeapSecondInformation availabilityStartLeapOffset=\"0\"></LeapSecondInformation></MPD>"
 },
 {
  "Type": "MPD",
  "Field": "ContentSteering",
  "XML": "<MPD profiles=\"\"><ContentSteering></ContentSteering></MPD>"
 },
 {
  "Type": "ProgramInformationType",
  "Field": "",
  "XML": "<ProgramInformationType></ProgramInformationType>"
 },
 {
  "Type": "ProgramInformationType",
  "Field": "Lang",
  "XML": "<ProgramInformationType lang=\"v7\"></ProgramInformationType>"
 },
 {
  "Type": "ProgramInformationType",
  "Field": "MoreInformationURL",
  "XML": "<ProgramInformationType moreInformationURL=\"v7\"></ProgramInformationType>"
 },
 {
  "Type": "ProgramInformationType",
  "Field": "Title",
  "XML": "<ProgramInformationType><Title>v7</Title></ProgramInformationType>"
 },
 {
  "Type": "ProgramInformationType",
  "Field": "Source",
  "XML": "<ProgramInformationType><Source>v7</Source></ProgramInformationType>"
 },
 {
  "Type": "ProgramInformationType",
  "Field": "Copyright",
  "XML": "<ProgramInformationType><Copyright>v7</Copyright></ProgramInformationType>"
 },
 {
  "Type": "BaseURLType",
  "Field": "",
  "XML": "<BaseURLType></BaseURLType>"
 },
 {
  "Type": "BaseURLType",
  "Field": "ServiceLocation",
  "XML": "<BaseURLType serviceLocation=\"v7\"></BaseURLType>"
 },
 {
  "Type": "BaseURLType",
  "Field": "ByteRange",
  "XML": "<BaseURLType byteRange=\"v7\"></BaseURLType>"
 },
 {
  "Type": "BaseURLType",
  "Field": "AvailabilityTimeOffset",
  "XML": "<BaseURLType availabilityTimeOffset=\"7.5\"></BaseURLType>"
 },
 {
  "Type": "BaseURLType",
  "Field": "AvailabilityTimeComplete",
  "XML": "<BaseURLType availabilityTimeComplete=\"true\"></BaseURLType>"
 },
 {
  "Type": "BaseURLType",
  "Field": "TimeShiftBufferDepth",
  "XML": "<BaseURLType timeShiftBufferDepth=\"PT7S\"></BaseURLType>"
 },
 {
  "Type": "BaseURLType",
  "Field": "RangeAccess",
  "XML": "<BaseURLType rangeAccess=\"true\"></BaseURLType>"
 },
 {
  "Type": "BaseURLType",
  "Field": "Value",
  "XML": "<BaseURLType>v7</BaseURLType>"
 },
 {
  "Type": "LocationType",
  "Field": "",
  "XML": "<LocationType></LocationType>"
 },
 {
  "Type": "LocationType",
  "Field": "ServiceLocation",
  "XML": "<LocationType serviceLocation=\"v7\"></LocationType>"
 },
 {
  "Type": "LocationType",
  "Field": "Value",
  "XML": "<LocationType>v7</LocationType>"
 },
 {
  "Type": "PatchLocationType",
  "Field": "",
  "XML": "<PatchLocation></PatchLocation>"
 },
 {
  "Type": "PatchLocationType",
  "Field": "ServiceLocation",
  "XML": "<PatchLocation serviceLocation=\"v7\"></PatchLocation>"
 },
 {
  "Type": "PatchLocationType",
  "Field": "Ttl",
  "XML": "<PatchLocation ttl=\"7.5\"></PatchLocation>"
 },
 {
  "Type": "PatchLocationType",
  "Field": "Value",
  "XML": "<PatchLocation>v7</PatchLocation>"
 },
 {
  "Type": "ExtendedUrlInfoType",
  "Field": "",
  "XML": "<ExtendedUrlInfoType></ExtendedUrlInfoType>"
 },
 {
  "Type": "ExtendedUrlInfoType",
  "Field": "IncludeInRequests",
  "XML": "<ExtendedUrlInfoType includeInRequests=\"v7\"></ExtendedUrlInfoType>"
 },
 {
  "Type": "ExtendedUrlInfoType",
  "Field": "HeaderParamSource",
  "XML": "<ExtendedUrlInfoType headerParamSource=\"v7\"></ExtendedUrlInfoType>"
 },
 {
  "Type": "ExtendedUrlInfoType",
  "Field": "SameOriginPolicy",
  "XML": "<ExtendedUrlInfoType sameOriginPolicy=\"true\"></ExtendedUrlInfoType>"
 },
 {
  "Type": "ExtendedUrlInfoType",
  "Field": "Header",
  "XML": "<ExtendedUrlInfoType header=\"v7\"></ExtendedUrlInfoType>"
 },
 {
  "Type": "UrlQueryInfoType",
  "Field": "",
  "XML": "<UrlQueryInfoType></UrlQueryInfoType>"
 },
 {
  "Type": "UrlQueryInfoType",
  "Field": "QueryTemplate",
  "XML": "<UrlQueryInfoType queryTemplate=\"v7\"></UrlQueryInfoType>"
 },
 {
  "Type": "UrlQueryInfoType",
  "Field": "UseMPDUrlQuery",
  "XML": "<UrlQueryInfoType useMPDUrlQuery=\"true\"></UrlQueryInfoType>"
 },
 {
  "Type": "UrlQueryInfoType",
  "Field": "QueryString",
  "XML": "<UrlQueryInfoType queryString=\"v7\"></UrlQueryInfoType>"
 },
 {
  "Type": "UrlQueryInfoType",
  "Field": "XlinkHref",
  "XML": "<UrlQueryInfoType xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:href=\"v7\"></UrlQueryInfoType>"
 },
 {
  "Type": "UrlQueryInfoType",
  "Field": "XlinkActuate",
  "XML": "<UrlQueryInfoType xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:actuate=\"v7\"></UrlQueryInfoType>"
 },
 {
  "Type": "UrlQueryInfoType",
  "Field": "XlinkType",
  "XML": "<UrlQueryInfoType xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:type=\"v7\"></UrlQueryInfoType>"
 },
 {
  "Type": "UrlQueryInfoType",
  "Field": "XlinkShow",
  "XML": "<UrlQueryInfoType xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:show=\"v7\"></UrlQueryInfoType>"
 },
 {
  "Type": "ServiceDescriptionType",
  "Field": "",
  "XML": "<ServiceDescription id=\"0\"></ServiceDescription>"
 },
 {
  "Type": "ServiceDescriptionType",
  "Field": "Id",
  "XML": "<ServiceDescription id=\"7\"></ServiceDescription>"
 },
 {
  "Type": "ServiceDescriptionType",
  "Field": "Scopes",
  "XML": "<ServiceDescription id=\"0\"><Scope></Scope></ServiceDescription>"
 },
 {
  "Type": "ServiceDescriptionType",
  "Field": "Latencies",
  "XML": "<ServiceDescription id=\"0\"><Latency referenceId=\"0\"></Latency></ServiceDescription>"
 },
 {
  "Type": "ServiceDescriptionType",
  "Field": "PlaybackRates",
  "XML": "<ServiceDescription id=\"0\"><PlaybackRate></PlaybackRate></ServiceDescription>"
 },
 {
  "Type": "ServiceDescriptionType",
  "Field": "OperatingQualities",
  "XML": "<ServiceDescription id=\"0\"><OperatingQuality></OperatingQuality></ServiceDescription>"
 },
 {
  "Type": "ServiceDescriptionType",
  "Field": "OperatingBandwidths",
  "XML": "<ServiceDescription id=\"0\"><OperatingBandwidth></OperatingBandwidth></ServiceDescription>"
 },
 {
  "Type": "ServiceDescriptionType",
  "Field": "ContentSteerings",
  "XML": "<ServiceDescription id=\"0\"><ContentSteering></ContentSteering></ServiceDescription>"
 },
 {
  "Type": "ServiceDescriptionType",
  "Field": "ClientDataReporting",
  "XML": "<ServiceDescription id=\"0\"><ClientDataReporting schemeIdUri=\"\"></ClientDataReporting></ServiceDescription>"
 },
 {
  "Type": "ServiceDescriptionType",
  "Field": "PlaybackRestrictions",
  "XML": "<ServiceDescription id=\"0\"><PlaybackRestrictions></PlaybackRestrictions></ServiceDescription>"
 },
 {
  "Type": "DescriptorType",
  "Field": "",
  "XML": "<DescriptorType></DescriptorType>"
 },
 {
  "Type": "DescriptorType",
  "Field": "SchemeIdUri",
  "XML": "<DescriptorType schemeIdUri=\"v7\"></DescriptorType>"
 },
 {
  "Type": "DescriptorType",
  "Field": "Value",
  "XML": "<DescriptorType value=\"v7\"></DescriptorType>"
 },
 {
  "Type": "DescriptorType",
  "Field": "Id",
  "XML": "<DescriptorType id=\"v7\"></DescriptorType>"
 },
 {
  "Type": "DescriptorType",
  "Field": "UrlQueryInfo",
  "XML": "<DescriptorType><up:UrlQueryInfo xmlns:up=\"urn:mpeg:dash:schema:urlparam:2014\"></up:UrlQueryInfo></DescriptorType>"
 },
 {
  "Type": "DescriptorType",
  "Field": "ExtUrlQueryInfo",
  "XML": "<DescriptorType><up:ExtUrlQueryInfo xmlns:up=\"urn:mpeg:dash:schema:urlparam:2016\"></up:ExtUrlQueryInfo></DescriptorType>"
 },
 {
  "Type": "DescriptorType",
  "Field": "SCTE214ContentIdentifiers",
  "XML": "<DescriptorType><scte214:ContentIdentifier xmlns:scte214=\"urn:scte:dash:scte214-extensions\" type=\"\" value=\"\"></scte214:ContentIdentifier></DescriptorType>"
 },
 {
  "Type": "SCTE214ContentIdentifierType",
  "Field": "",
  "XML": "<SCTE214ContentIdentifierType type=\"\" value=\"\"></SCTE214ContentIdentifierType>"
 },
 {
  "Type": "SCTE214ContentIdentifierType",
  "Field": "Type",
  "XML": "<SCTE214ContentIdentifierType type=\"v7\" value=\"\"></SCTE214ContentIdentifierType>"
 },
 {
  "Type": "SCTE214ContentIdentifierType",
  "Field": "Value",
  "XML": "<SCTE214ContentIdentifierType type=\"\" value=\"v7\"></SCTE214ContentIdentifierType>"
 },
 {
  "Type": "SCTE214ContentIdentifierType",
  "Field": "AnyAttrs",
  "XML": "<SCTE214ContentIdentifierType type=\"\" value=\"\" other=\"v\"></SCTE214ContentIdentifierType>"
 },
 {
  "Type": "LatencyType",
  "Field": "",
  "XML": "<Latency referenceId=\"0\"></Latency>"
 },
 {
  "Type": "LatencyType",
  "Field": "ReferenceId",
  "XML": "<Latency referenceId=\"7\"></Latency>"
 },
 {
  "Type": "LatencyType",
  "Field": "Target",
  "XML": "<Latency referenceId=\"0\" target=\"7\"></Latency>"
 },
 {
  "Type": "LatencyType",
  "Field": "Max",
  "XML": "<Latency referenceId=\"0\" max=\"7\"></Latency>"
 },
 {
  "Type": "LatencyType",
  "Field": "Min",
  "XML": "<Latency referenceId=\"0\" min=\"7\"></Latency>"
 },
 {
  "Type": "LatencyType",
  "Field": "QualityLatencies",
  "XML": "<Latency referenceId=\"0\"><QualityLatency></QualityLatency></Latency>"
 },
 {
  "Type": "UIntPairsWithIDType",
  "Field": "",
  "XML": "<UIntPairsWithIDType></UIntPairsWithIDType>"
 },
 {
  "Type": "UIntPairsWithIDType",
  "Field": "Type",
  "XML": "<UIntPairsWithIDType type=\"v7\"></UIntPairsWithIDType>"
 },
 {
  "Type": "UIntPairsWithIDType",
  "Field": "UIntVectorType",
  "XML": "<UIntPairsWithIDType>v7</UIntPairsWithIDType>"
 },
 {
  "Type": "PlaybackRateType",
  "Field": "",
  "XML": "<PlaybackRate></PlaybackRate>"
 },
 {
  "Type": "PlaybackRateType",
  "Field": "Max",
  "XML": "<PlaybackRate max=\"7.5\"></PlaybackRate>"
 },
 {
  "Type": "PlaybackRateType",
  "Field": "Min",
  "XML": "<PlaybackRate min=\"7.5\"></PlaybackRate>"
 },
 {
  "Type": "OperatingQualityType",
  "Field": "",
  "XML": "<OperatingQuality></OperatingQuality>"
 },
 {
  "Type": "OperatingQualityType",
  "Field": "MediaType",
  "XML": "<OperatingQuality mediaType=\"v7\"></OperatingQuality>"
 },
 {
  "Type": "OperatingQualityType",
  "Field": "Min",
  "XML": "<OperatingQuality min=\"7\"></OperatingQuality>"
 },
 {
  "Type": "OperatingQualityType",
  "Field": "Max",
  "XML": "<OperatingQuality max=\"7\"></OperatingQuality>"
 },
 {
  "Type": "OperatingQualityType",
  "Field": "Target",
  "XML": "<OperatingQuality target=\"7\"></OperatingQuality>"
 },
 {
  "Type": "OperatingQualityType",
  "Field": "Type",
  "XML": "<OperatingQuality type=\"v7\"></OperatingQuality>"
 },
 {
  "Type": "OperatingQualityType",
  "Field": "MaxDifference",
  "XML": "<OperatingQuality maxDifference=\"7\"></OperatingQuality>"
 },
 {
  "Type": "OperatingBandwidthType",
  "Field": "",
  "XML": "<OperatingBandwidth></OperatingBandwidth>"
 },
 {
  "Type": "OperatingBandwidthType",
  "Field": "MediaType",
  "XML": "<OperatingBandwidth mediaType=\"v7\"></OperatingBandwidth>"
 },
 {
  "Type": "OperatingBandwidthType",
  "Field": "Min",
  "XML": "<OperatingBandwidth min=\"7\"></OperatingBandwidth>"
 },
 {
  "Type": "OperatingBandwidthType",
  "Field": "Max",
  "XML": "<OperatingBandwidth max=\"7\"></OperatingBandwidth>"
 },
 {
  "Type": "OperatingBandwidthType",
  "Field": "Target",
  "XML": "<OperatingBandwidth target=\"7\"></OperatingBandwidth>"
 },
 {
  "Type": "ContentSteeringType",
  "Field": "",
  "XML": "<ContentSteeringType></ContentSteeringType>"
 },
 {
  "Type": "ContentSteeringType",
  "Field": "DefaultServiceLocation",
  "XML": "<ContentSteeringType defaultServiceLocation=\"v7\"></ContentSteeringType>"
 },
 {
  "Type": "ContentSteeringType",
  "Field": "QueryBeforeStart",
  "XML": "<ContentSteeringType queryBeforeStart=\"true\"></ContentSteeringType>"
 },
 {
  "Type": "ContentSteeringType",
  "Field": "ClientRequirement",
  "XML": "<ContentSteeringType clientRequirement=\"true\"></ContentSteeringType>"
 },
 {
  "Type": "ContentSteeringType",
  "Field": "Value",
  "XML": "<ContentSteeringType>v7</ContentSteeringType>"
 },
 {
  "Type": "ClientDataReportingType",
  "Field": "",
  "XML": "<ClientDataReportingType schemeIdUri=\"\"></ClientDataReportingType>"
 },
 {
  "Type": "ClientDataReportingType",
  "Field": "SchemeIdUri",
  "XML": "<ClientDataReportingType schemeIdUri=\"v7\"></ClientDataReportingType>"
 },
 {
  "Type": "ClientDataReportingType",
  "Field": "ServiceLocations",
  "XML": "<ClientDataReportingType schemeIdUri=\"\" serviceLocations=\"v7\"></ClientDataReportingType>"
 },
 {
  "Type": "ClientDataReportingType",
  "Field": "AdaptationSets",
  "XML": "<ClientDataReportingType schemeIdUri=\"\" adaptationSets=\"v7\"></ClientDataReportingType>"
 },
 {
  "Type": "ClientDataReportingType",
  "Field": "CMCDParameters",
  "XML": "<ClientDataReportingType schemeIdUri=\"\"><CMCDParameters></CMCDParameters></ClientDataReportingType>"
 },
 {
  "Type": "CMCDParameterType",
  "Field": "",
  "XML": "<CMCDParameterType></CMCDParameterType>"
 },
 {
  "Type": "CMCDParameterType",
  "Field": "Version",
  "XML": "<CMCDParameterType version=\"7\"></CMCDParameterType>"
 },
 {
  "Type": "CMCDParameterType",
  "Field": "Mode",
  "XML": "<CMCDParameterType mode=\"v7\"></CMCDParameterType>"
 },
 {
  "Type": "CMCDParameterType",
  "Field": "IncludeInRequests",
  "XML": "<CMCDParameterType includeInRequests=\"v7\"></CMCDParameterType>"
 },
 {
  "Type": "CMCDParameterType",
  "Field": "Keys",
  "XML": "<CMCDParameterType keys=\"v7\"></CMCDParameterType>"
 },
 {
  "Type": "CMCDParameterType",
  "Field": "ContentID",
  "XML": "<CMCDParameterType contentID=\"v7\"></CMCDParameterType>"
 },
 {
  "Type": "CMCDParameterType",
  "Field": "SessionID",
  "XML": "<CMCDParameterType sessionID=\"v7\"></CMCDParameterType>"
 },
 {
  "Type": "PlaybackRestrictionsType",
  "Field": "",
  "XML": "<PlaybackRestrictionsType></PlaybackRestrictionsType>"
 },
 {
  "Type": "PlaybackRestrictionsType",
  "Field": "SkipAfter",
  "XML": "<PlaybackRestrictionsType skipAfter=\"PT7S\"></PlaybackRestrictionsType>"
 },
 {
  "Type": "InitializationSetType",
  "Field": "",
  "XML": "<InitializationSet id=\"0\"></InitializationSet>"
 },
 {
  "Type": "InitializationSetType",
  "Field": "XlinkHref",
  "XML": "<InitializationSet xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:href=\"v7\" id=\"0\"></InitializationSet>"
 },
 {
  "Type": "InitializationSetType",
  "Field": "XlinkActuate",
  "XML": "<InitializationSet xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:actuate=\"v7\" id=\"0\"></InitializationSet>"
 },
 {
  "Type": "InitializationSetType",
  "Field": "XlinkType",
  "XML": "<InitializationSet xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:type=\"v7\" id=\"0\"></InitializationSet>"
 },
 {
  "Type": "InitializationSetType",
  "Field": "Id",
  "XML": "<InitializationSet id=\"7\"></InitializationSet>"
 },
 {
  "Type": "InitializationSetType",
  "Field": "InAllPeriods",
  "XML": "<InitializationSet id=\"0\" inAllPeriods=\"true\"></InitializationSet>"
 },
 {
  "Type": "InitializationSetType",
  "Field": "ContentType",
  "XML": "<InitializationSet id=\"0\" contentType=\"v7\"></InitializationSet>"
 },
 {
  "Type": "InitializationSetType",
  "Field": "Par",
  "XML": "<InitializationSet id=\"0\" par=\"v7\"></InitializationSet>"
 },
 {
  "Type": "InitializationSetType",
  "Field": "MaxWidth",
  "XML": "<InitializationSet id=\"0\" maxWidth=\"7\"></InitializationSet>"
 },
 {
  "Type": "InitializationSetType",
  "Field": "MaxHeight",
  "XML": "<InitializationSet id=\"0\" maxHeight=\"7\"></InitializationSet>"
 },
 {
  "Type": "InitializationSetType",
  "Field": "MaxFrameRate",
  "XML": "<InitializationSet id=\"0\" maxFrameRate=\"v7\"></InitializationSet>"
 },
 {
  "Type": "InitializationSetType",
  "Field": "Initialization",
  "XML": "<InitializationSet id=\"0\" initialization=\"v7\"></InitializationSet>"
 },
 {
  "Type": "InitializationSetType",
  "Field": "Accessibilities",
  "XML": "<InitializationSet id=\"0\"><Accessibility></Accessibility></InitializationSet>"
 },
 {
  "Type": "InitializationSetType",
  "Field": "Roles",
  "XML": "<InitializationSet id=\"0\"><Role></Role></InitializationSet>"
 },
 {
  "Type": "InitializationSetType",
  "Field": "Ratings",
  "XML": "<InitializationSet id=\"0\"><Rating></Rating></InitializationSet>"
 },
 {
  "Type": "InitializationSetType",
  "Field": "Viewpoints",
  "XML": "<InitializationSet id=\"0\"><Viewpoint></Viewpoint></InitializationSet>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "",
  "XML": "<RepresentationBaseType></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "Profiles",
  "XML": "<RepresentationBaseType profiles=\"v7\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "Width",
  "XML": "<RepresentationBaseType width=\"7\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "Height",
  "XML": "<RepresentationBaseType height=\"7\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "Sar",
  "XML": "<RepresentationBaseType sar=\"v7\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "FrameRate",
  "XML": "<RepresentationBaseType frameRate=\"v7\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "AudioSamplingRate",
  "XML": "<RepresentationBaseType audioSamplingRate=\"v7\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "MimeType",
  "XML": "<RepresentationBaseType mimeType=\"v7\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "SegmentProfiles",
  "XML": "<RepresentationBaseType segmentProfiles=\"v7\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "Codecs",
  "XML": "<RepresentationBaseType codecs=\"v7\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "ContainerProfiles",
  "XML": "<RepresentationBaseType containerProfiles=\"v7\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "MaximumSAPPeriod",
  "XML": "<RepresentationBaseType maximumSAPPeriod=\"7.5\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "StartWithSAP",
  "XML": "<RepresentationBaseType startWithSAP=\"7\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "MaxPlayoutRate",
  "XML": "<RepresentationBaseType maxPlayoutRate=\"7.5\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "CodingDependency",
  "XML": "<RepresentationBaseType codingDependency=\"true\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "ScanType",
  "XML": "<RepresentationBaseType scanType=\"v7\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "SelectionPriority",
  "XML": "<RepresentationBaseType selectionPriority=\"7\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "Tag",
  "XML": "<RepresentationBaseType tag=\"v7\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "SCTE214SupplementalProfiles",
  "XML": "<RepresentationBaseType xmlns:scte214=\"urn:scte:dash:scte214-extensions\" scte214:supplementalProfiles=\"v7\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "SCTE214SupplementalCodecs",
  "XML": "<RepresentationBaseType xmlns:scte214=\"urn:scte:dash:scte214-extensions\" scte214:supplementalCodecs=\"v7\"></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "FramePackings",
  "XML": "<RepresentationBaseType><FramePacking></FramePacking></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "AudioChannelConfigurations",
  "XML": "<RepresentationBaseType><AudioChannelConfiguration></AudioChannelConfiguration></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "ContentProtections",
  "XML": "<RepresentationBaseType><ContentProtection></ContentProtection></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "OutputProtection",
  "XML": "<RepresentationBaseType><OutputProtection></OutputProtection></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "EssentialProperties",
  "XML": "<RepresentationBaseType><EssentialProperty></EssentialProperty></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "SupplementalProperties",
  "XML": "<RepresentationBaseType><SupplementalProperty></SupplementalProperty></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "InbandEventStreams",
  "XML": "<RepresentationBaseType><InbandEventStream schemeIdUri=\"\"></InbandEventStream></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "Switchings",
  "XML": "<RepresentationBaseType><Switching interval=\"0\"></Switching></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "RandomAccesses",
  "XML": "<RepresentationBaseType><RandomAccess interval=\"0\"></RandomAccess></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "GroupLabels",
  "XML": "<RepresentationBaseType><GroupLabel></GroupLabel></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "Labels",
  "XML": "<RepresentationBaseType><Label></Label></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "ProducerReferenceTimes",
  "XML": "<RepresentationBaseType><ProducerReferenceTime id=\"0\" wallClockTime=\"\" presentationTime=\"0\"></ProducerReferenceTime></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "ContentPopularityRates",
  "XML": "<RepresentationBaseType><ContentPopularityRate source=\"\"></ContentPopularityRate></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "Resyncs",
  "XML": "<RepresentationBaseType><Resync type=\"0\" dImin=\"0\" marker=\"false\"></Resync></RepresentationBaseType>"
 },
 {
  "Type": "RepresentationBaseType",
  "Field": "SegmentSequenceProperties",
  "XML": "<RepresentationBaseType><SegmentSequenceProperties sapType=\"0\"></SegmentSequenceProperties></RepresentationBaseType>"
 },
 {
  "Type": "ContentProtectionType",
  "Field": "",
  "XML": "<ContentProtection></ContentProtection>"
 },
 {
  "Type": "ContentProtectionType",
  "Field": "Robustness",
  "XML": "<ContentProtection robustness=\"v7\"></ContentProtection>"
 },
 {
  "Type": "ContentProtectionType",
  "Field": "RefId",
  "XML": "<ContentProtection refId=\"v7\"></ContentProtection>"
 },
 {
  "Type": "ContentProtectionType",
  "Field": "Ref",
  "XML": "<ContentProtection ref=\"v7\"></ContentProtection>"
 },
 {
  "Type": "ContentProtectionType",
  "Field": "DefaultKID",
  "XML": "<ContentProtection xmlns:cenc=\"urn:mpeg:cenc:2013\" cenc:default_KID=\"v7\"></ContentProtection>"
 },
 {
  "Type": "ContentProtectionType",
  "Field": "Pssh",
  "XML": "<ContentProtection><cenc:pssh xmlns:cenc=\"urn:mpeg:cenc:2013\"></cenc:pssh></ContentProtection>"
 },
 {
  "Type": "ContentProtectionType",
  "Field": "MSPro",
  "XML": "<ContentProtection><mspr:pro xmlns:mspr=\"urn:microsoft:playready\"></mspr:pro></ContentProtection>"
 },
 {
  "Type": "ContentProtectionType",
  "Field": "LaURL",
  "XML": "<ContentProtection><dashif:Laurl xmlns:dashif=\"https://dashif.org/CPS\"></dashif:Laurl></ContentProtection>"
 },
 {
  "Type": "ContentProtectionType",
  "Field": "AuthzURL",
  "XML": "<ContentProtection><dashif:Authzurl xmlns:dashif=\"https://dashif.org/CPS\"></dashif:Authzurl></ContentProtection>"
 },
 {
  "Type": "ContentProtectionType",
  "Field": "Certurls",
  "XML": "<ContentProtection><dashif:Certurl xmlns:dashif=\"https://dashif.org/CPS\"></dashif:Certurl></ContentProtection>"
 },
 {
  "Type": "ContentProtectionType",
  "Field": "MarlinContentIds",
  "XML": "<ContentProtection><mas:MarlinContentIds xmlns:mas=\"urn:marlin:mas:1-0:services:schemas:mpd\"></mas:MarlinContentIds></ContentProtection>"
 },
 {
  "Type": "PsshType",
  "Field": "",
  "XML": "<PsshType></PsshType>"
 },
 {
  "Type": "PsshType",
  "Field": "Value",
  "XML": "<PsshType>v7</PsshType>"
 },
 {
  "Type": "MSProType",
  "Field": "",
  "XML": "<MSProType></MSProType>"
 },
 {
  "Type": "MSProType",
  "Field": "Value",
  "XML": "<MSProType>v7</MSProType>"
 },
 {
  "Type": "LaURLType",
  "Field": "",
  "XML": "<LaURLType></LaURLType>"
 },
 {
  "Type": "LaURLType",
  "Field": "LicenseType",
  "XML": "<LaURLType licenseType=\"v7\"></LaURLType>"
 },
 {
  "Type": "LaURLType",
  "Field": "Value",
  "XML": "<LaURLType>v7</LaURLType>"
 },
 {
  "Type": "AuthzURLType",
  "Field": "",
  "XML": "<AuthzURLType></AuthzURLType>"
 },
 {
  "Type": "AuthzURLType",
  "Field": "AuthzType",
  "XML": "<AuthzURLType authzType=\"v7\"></AuthzURLType>"
 },
 {
  "Type": "AuthzURLType",
  "Field": "Value",
  "XML": "<AuthzURLType>v7</AuthzURLType>"
 },
 {
  "Type": "CerturlType",
  "Field": "",
  "XML": "<CerturlType></CerturlType>"
 },
 {
  "Type": "CerturlType",
  "Field": "CertType",
  "XML": "<CerturlType certType=\"v7\"></CerturlType>"
 },
 {
  "Type": "CerturlType",
  "Field": "Value",
  "XML": "<CerturlType>v7</CerturlType>"
 },
 {
  "Type": "MarlinContentIds",
  "Field": "",
  "XML": "<MarlinContentIds></MarlinContentIds>"
 },
 {
  "Type": "MarlinContentIds",
  "Field": "Cids",
  "XML": "<MarlinContentIds><mas:MarlinContentId xmlns:mas=\"urn:marlin:mas:1-0:services:schemas:mpd\"></mas:MarlinContentId></MarlinContentIds>"
 },
 {
  "Type": "MarlinContentId",
  "Field": "",
  "XML": "<MarlinContentId></MarlinContentId>"
 },
 {
  "Type": "MarlinContentId",
  "Field": "Value",
  "XML": "<MarlinContentId>v7</MarlinContentId>"
 },
 {
  "Type": "EventStreamType",
  "Field": "",
  "XML": "<EventStreamType schemeIdUri=\"\"></EventStreamType>"
 },
 {
  "Type": "EventStreamType",
  "Field": "XlinkHref",
  "XML": "<EventStreamType xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:href=\"v7\" schemeIdUri=\"\"></EventStreamType>"
 },
 {
  "Type": "EventStreamType",
  "Field": "XlinkActuate",
  "XML": "<EventStreamType xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:actuate=\"v7\" schemeIdUri=\"\"></EventStreamType>"
 },
 {
  "Type": "EventStreamType",
  "Field": "XlinkType",
  "XML": "<EventStreamType xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:type=\"v7\" schemeIdUri=\"\"></EventStreamType>"
 },
 {
  "Type": "EventStreamType",
  "Field": "XlinkShow",
  "XML": "<EventStreamType xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:show=\"v7\" schemeIdUri=\"\"></EventStreamType>"
 },
 {
  "Type": "EventStreamType",
  "Field": "SchemeIdUri",
  "XML": "<EventStreamType schemeIdUri=\"v7\"></EventStreamType>"
 },
 {
  "Type": "EventStreamType",
  "Field": "Value",
  "XML": "<EventStreamType schemeIdUri=\"\" value=\"v7\"></EventStreamType>"
 },
 {
  "Type": "EventStreamType",
  "Field": "Timescale",
  "XML": "<EventStreamType schemeIdUri=\"\" timescale=\"7\"></EventStreamType>"
 },
 {
  "Type": "EventStreamType",
  "Field": "PresentationTimeOffset",
  "XML": "<EventStreamType schemeIdUri=\"\" presentationTimeOffset=\"7\"></EventStreamType>"
 },
 {
  "Type": "EventStreamType",
  "Field": "Events",
  "XML": "<EventStreamType schemeIdUri=\"\"><Event presentationTime=\"0\"></Event></EventStreamType>"
 },
 {
  "Type": "EventStreamType",
  "Field": "BaseURLs",
  "XML": "<EventStreamType schemeIdUri=\"\"><BaseURL></BaseURL></EventStreamType>"
 },
 {
  "Type": "EventStreamType",
  "Field": "RequestParam",
  "XML": "<EventStreamType schemeIdUri=\"\"><RequestParam></RequestParam></EventStreamType>"
 },
 {
  "Type": "EventStreamType",
  "Field": "EssentialProperty",
  "XML": "<EventStreamType schemeIdUri=\"\"><EssentialProperty></EssentialProperty></EventStreamType>"
 },
 {
  "Type": "EventStreamType",
  "Field": "SupplementalProperty",
  "XML": "<EventStreamType schemeIdUri=\"\"><SupplementalProperty></SupplementalProperty></EventStreamType>"
 },
 {
  "Type": "EventType",
  "Field": "",
  "XML": "<Event presentationTime=\"0\"></Event>"
 },
 {
  "Type": "EventType",
  "Field": "PresentationTime",
  "XML": "<Event presentationTime=\"7\"></Event>"
 },
 {
  "Type": "EventType",
  "Field": "Duration",
  "XML": "<Event presentationTime=\"0\" duration=\"7\"></Event>"
 },
 {
  "Type": "EventType",
  "Field": "Id",
  "XML": "<Event presentationTime=\"0\" id=\"7\"></Event>"
 },
 {
  "Type": "EventType",
  "Field": "Status",
  "XML": "<Event presentationTime=\"0\" status=\"v7\"></Event>"
 },
 {
  "Type": "EventType",
  "Field": "ContentEncoding",
  "XML": "<Event presentationTime=\"0\" contentEncoding=\"v7\"></Event>"
 },
 {
  "Type": "EventType",
  "Field": "MessageData",
  "XML": "<Event presentationTime=\"0\" messageData=\"v7\"></Event>"
 },
 {
  "Type": "EventType",
  "Field": "Value",
  "XML": "<Event presentationTime=\"0\">v7</Event>"
 },
 {
  "Type": "EventType",
  "Field": "SelectionInfo",
  "XML": "<Event presentationTime=\"0\"><SelectionInfo contactURL=\"\"></SelectionInfo></Event>"
 },
 {
  "Type": "EventType",
  "Field": "ServiceDescription",
  "XML": "<Event presentationTime=\"0\"><ServiceDescription id=\"0\"></ServiceDescription></Event>"
 },
 {
  "Type": "EventType",
  "Field": "InsertPresentation",
  "XML": "<Event presentationTime=\"0\"><InsertPresentation uri=\"\"></InsertPresentation></Event>"
 },
 {
  "Type": "EventType",
  "Field": "ReplacePresentation",
  "XML": "<Event presentationTime=\"0\"><ReplacePresentation></ReplacePresentation></Event>"
 },
 {
  "Type": "EventType",
  "Field": "SupplementalProperty",
  "XML": "<Event presentationTime=\"0\"><SupplementalProperty></SupplementalProperty></Event>"
 },
 {
  "Type": "EventType",
  "Field": "EssentialProperty",
  "XML": "<Event presentationTime=\"0\"><EssentialProperty></EssentialProperty></Event>"
 },
 {
  "Type": "EventType",
  "Field": "Signal",
  "XML": "<Event presentationTime=\"0\"><Signal></Signal></Event>"
 },
 {
  "Type": "EventType",
  "Field": "SpliceInfoSection",
  "XML": "<Event presentationTime=\"0\"><SpliceInfoSection></SpliceInfoSection></Event>"
 },
 {
  "Type": "SelectionInfoType",
  "Field": "",
  "XML": "<SelectionInfoType contactURL=\"\"></SelectionInfoType>"
 },
 {
  "Type": "SelectionInfoType",
  "Field": "SelectionInfo",
  "XML": "<SelectionInfoType selectionInfo=\"v7\" contactURL=\"\"></SelectionInfoType>"
 },
 {
  "Type": "SelectionInfoType",
  "Field": "ContactURL",
  "XML": "<SelectionInfoType contactURL=\"v7\"></SelectionInfoType>"
 },
 {
  "Type": "SelectionInfoType",
  "Field": "Selection",
  "XML": "<SelectionInfoType contactURL=\"\"><Selection parameter=\"\"></Selection></SelectionInfoType>"
 },
 {
  "Type": "SelectionType",
  "Field": "",
  "XML": "<SelectionType parameter=\"\"></SelectionType>"
 },
 {
  "Type": "SelectionType",
  "Field": "DataEncoding",
  "XML": "<SelectionType dataEncoding=\"v7\" parameter=\"\"></SelectionType>"
 },
 {
  "Type": "SelectionType",
  "Field": "Parameter",
  "XML": "<SelectionType parameter=\"v7\"></SelectionType>"
 },
 {
  "Type": "SelectionType",
  "Field": "Data",
  "XML": "<SelectionType parameter=\"\" data=\"v7\"></SelectionType>"
 },
 {
  "Type": "AlternativeMPDEventType",
  "Field": "",
  "XML": "<AlternativeMPDEventType uri=\"\"></AlternativeMPDEventType>"
 },
 {
  "Type": "AlternativeMPDEventType",
  "Field": "Uri",
  "XML": "<AlternativeMPDEventType uri=\"v7\"></AlternativeMPDEventType>"
 },
 {
  "Type": "AlternativeMPDEventType",
  "Field": "EarliestResolutionTimeOffset",
  "XML": "<AlternativeMPDEventType uri=\"\" earliestResolutionTimeOffset=\"7.5\"></AlternativeMPDEventType>"
 },
 {
  "Type": "AlternativeMPDEventType",
  "Field": "MaxDuration",
  "XML": "<AlternativeMPDEventType uri=\"\" maxDuration=\"7\"></AlternativeMPDEventType>"
 },
 {
  "Type": "AlternativeMPDEventType",
  "Field": "ExecuteOnce",
  "XML": "<AlternativeMPDEventType uri=\"\" executeOnce=\"true\"></AlternativeMPDEventType>"
 },
 {
  "Type": "AlternativeMPDEventType",
  "Field": "NoJump",
  "XML": "<AlternativeMPDEventType uri=\"\" noJump=\"7\"></AlternativeMPDEventType>"
 },
 {
  "Type": "AlternativeMPDEventType",
  "Field": "SkipAfter",
  "XML": "<AlternativeMPDEventType uri=\"\" skipAfter=\"PT7S\"></AlternativeMPDEventType>"
 },
 {
  "Type": "AlternativeMPDEventType",
  "Field": "SupplementalProperty",
  "XML": "<AlternativeMPDEventType uri=\"\"><SupplementalProperty></SupplementalProperty></AlternativeMPDEventType>"
 },
 {
  "Type": "AlternativeMPDReplaceEventType",
  "Field": "",
  "XML": "<AlternativeMPDReplaceEventType></AlternativeMPDReplaceEventType>"
 },
 {
  "Type": "AlternativeMPDReplaceEventType",
  "Field": "ReturnOffset",
  "XML": "<AlternativeMPDReplaceEventType returnOffset=\"7\"></AlternativeMPDReplaceEventType>"
 },
 {
  "Type": "AlternativeMPDReplaceEventType",
  "Field": "Clip",
  "XML": "<AlternativeMPDReplaceEventType clip=\"true\"></AlternativeMPDReplaceEventType>"
 },
 {
  "Type": "AlternativeMPDReplaceEventType",
  "Field": "StartWithOffset",
  "XML": "<AlternativeMPDReplaceEventType startWithOffset=\"true\"></AlternativeMPDReplaceEventType>"
 },
 {
  "Type": "AlternativeMPDReplaceEventType",
  "Field": "AlternativeMPDEventType",
  "XML": "<AlternativeMPDReplaceEventType uri=\"\"></AlternativeMPDReplaceEventType>"
 },
 {
  "Type": "SignalType",
  "Field": "",
  "XML": "<SignalType></SignalType>"
 },
 {
  "Type": "SignalType",
  "Field": "SpliceInfoSection",
  "XML": "<SignalType><SpliceInfoSection></SpliceInfoSection></SignalType>"
 },
 {
  "Type": "SignalType",
  "Field": "Binary",
  "XML": "<SignalType><Binary></Binary></SignalType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "",
  "XML": "<SpliceInfoSectionType></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "SapType",
  "XML": "<SpliceInfoSectionType sapType=\"7\"></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "PreRollMilliSeconds",
  "XML": "<SpliceInfoSectionType preRollMilliSeconds=\"7\"></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "PtsAdjustment",
  "XML": "<SpliceInfoSectionType ptsAdjustment=\"7\"></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "ProtocolVersion",
  "XML": "<SpliceInfoSectionType protocolVersion=\"7\"></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "Tier",
  "XML": "<SpliceInfoSectionType tier=\"7\"></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "AnyAttrs",
  "XML": "<SpliceInfoSectionType other=\"v\"></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "Ext",
  "XML": "<SpliceInfoSectionType><Ext></Ext></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "EncryptedPacket",
  "XML": "<SpliceInfoSectionType><EncryptedPacket encryptionAlgorithm=\"0\" cwIndex=\"0\"></EncryptedPacket></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "SpliceNull",
  "XML": "<SpliceInfoSectionType><SpliceNull></SpliceNull></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "SpliceSchedule",
  "XML": "<SpliceInfoSectionType><SpliceSchedule></SpliceSchedule></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "SpliceInsert",
  "XML": "<SpliceInfoSectionType><SpliceInsert></SpliceInsert></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "TimeSignal",
  "XML": "<SpliceInfoSectionType><TimeSignal></TimeSignal></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "BandwidthReservation",
  "XML": "<SpliceInfoSectionType><BandwidthReservation></BandwidthReservation></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "PrivateCommand",
  "XML": "<SpliceInfoSectionType><PrivateCommand identifier=\"0\"></PrivateCommand></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "AvailDescriptors",
  "XML": "<SpliceInfoSectionType><AvailDescriptor providerAvailId=\"0\"></AvailDescriptor></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "DTMFDescriptors",
  "XML": "<SpliceInfoSectionType><DTMFDescriptor></DTMFDescriptor></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "SegmentationDescriptors",
  "XML": "<SpliceInfoSectionType><SegmentationDescriptor></SegmentationDescriptor></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "TimeDescriptors",
  "XML": "<SpliceInfoSectionType><TimeDescriptor></TimeDescriptor></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "AudioDescriptors",
  "XML": "<SpliceInfoSectionType><AudioDescriptor></AudioDescriptor></SpliceInfoSectionType>"
 },
 {
  "Type": "SpliceInfoSectionType",
  "Field": "PrivateDescriptors",
  "XML": "<SpliceInfoSectionType><PrivateDescriptor descriptorTag=\"0\" identifier=\"0\"></PrivateDescriptor></SpliceInfoSectionType>"
 },
 {
  "Type": "ExtType",
  "Field": "",
  "XML": "<ExtType></ExtType>"
 },
 {
  "Type": "ExtType",
  "Field": "AnyAttrs",
  "XML": "<ExtType other=\"v\"></ExtType>"
 },
 {
  "Type": "ExtType",
  "Field": "InnerXML",
  "XML": "<ExtType><i></i></ExtType>"
 },
 {
  "Type": "EncryptedPacketType",
  "Field": "",
  "XML": "<EncryptedPacketType encryptionAlgorithm=\"0\" cwIndex=\"0\"></EncryptedPacketType>"
 },
 {
  "Type": "EncryptedPacketType",
  "Field": "EncryptionAlgorithm",
  "XML": "<EncryptedPacketType encryptionAlgorithm=\"7\" cwIndex=\"0\"></EncryptedPacketType>"
 },
 {
  "Type": "EncryptedPacketType",
  "Field": "CwIndex",
  "XML": "<EncryptedPacketType encryptionAlgorithm=\"0\" cwIndex=\"7\"></EncryptedPacketType>"
 },
 {
  "Type": "EncryptedPacketType",
  "Field": "AnyAttrs",
  "XML": "<EncryptedPacketType encryptionAlgorithm=\"0\" cwIndex=\"0\" other=\"v\"></EncryptedPacketType>"
 },
 {
  "Type": "EncryptedPacketType",
  "Field": "Ext",
  "XML": "<EncryptedPacketType encryptionAlgorithm=\"0\" cwIndex=\"0\"><Ext></Ext></EncryptedPacketType>"
 },
 {
  "Type": "SpliceNullType",
  "Field": "",
  "XML": "<SpliceNullType></SpliceNullType>"
 },
 {
  "Type": "SpliceNullType",
  "Field": "Ext",
  "XML": "<SpliceNullType><Ext></Ext></SpliceNullType>"
 },
 {
  "Type": "SpliceScheduleType",
  "Field": "",
  "XML": "<SpliceScheduleType></SpliceScheduleType>"
 },
 {
  "Type": "SpliceScheduleType",
  "Field": "Ext",
  "XML": "<SpliceScheduleType><Ext></Ext></SpliceScheduleType>"
 },
 {
  "Type": "SpliceScheduleType",
  "Field": "Events",
  "XML": "<SpliceScheduleType><Event></Event></SpliceScheduleType>"
 },
 {
  "Type": "SpliceScheduleEventType",
  "Field": "",
  "XML": "<SpliceScheduleEventType></SpliceScheduleEventType>"
 },
 {
  "Type": "SpliceScheduleEventType",
  "Field": "SpliceEventId",
  "XML": "<SpliceScheduleEventType spliceEventId=\"7\"></SpliceScheduleEventType>"
 },
 {
  "Type": "SpliceScheduleEventType",
  "Field": "EventIdComplianceFlag",
  "XML": "<SpliceScheduleEventType eventIdComplianceFlag=\"true\"></SpliceScheduleEventType>"
 },
 {
  "Type": "SpliceScheduleEventType",
  "Field": "SpliceEventCancelIndicator",
  "XML": "<SpliceScheduleEventType spliceEventCancelIndicator=\"true\"></SpliceScheduleEventType>"
 },
 {
  "Type": "SpliceScheduleEventType",
  "Field": "OutOfNetworkIndicator",
  "XML": "<SpliceScheduleEventType outOfNetworkIndicator=\"true\"></SpliceScheduleEventType>"
 },
 {
  "Type": "SpliceScheduleEventType",
  "Field": "UniqueProgramId",
  "XML": "<SpliceScheduleEventType uniqueProgramId=\"7\"></SpliceScheduleEventType>"
 },
 {
  "Type": "SpliceScheduleEventType",
  "Field": "AvailNum",
  "XML": "<SpliceScheduleEventType availNum=\"7\"></SpliceScheduleEventType>"
 },
 {
  "Type": "SpliceScheduleEventType",
  "Field": "AvailsExpected",
  "XML": "<SpliceScheduleEventType availsExpected=\"7\"></SpliceScheduleEventType>"
 },
 {
  "Type": "SpliceScheduleEventType",
  "Field": "AnyAttrs",
  "XML": "<SpliceScheduleEventType other=\"v\"></SpliceScheduleEventType>"
 },
 {
  "Type": "SpliceScheduleEventType",
  "Field": "Ext",
  "XML": "<SpliceScheduleEventType><Ext></Ext></SpliceScheduleEventType>"
 },
 {
  "Type": "SpliceScheduleEventType",
  "Field": "Program",
  "XML": "<SpliceScheduleEventType><Program utcSpliceTime=\"\"></Program></SpliceScheduleEventType>"
 },
 {
  "Type": "SpliceScheduleEventType",
  "Field": "Components",
  "XML": "<SpliceScheduleEventType><Component componentTag=\"0\" utcSpliceTime=\"\"></Component></SpliceScheduleEventType>"
 },
 {
  "Type": "SpliceScheduleEventType",
  "Field": "BreakDuration",
  "XML": "<SpliceScheduleEventType><BreakDuration autoReturn=\"false\" duration=\"0\"></BreakDuration></SpliceScheduleEventType>"
 },
 {
  "Type": "SpliceScheduleProgramType",
  "Field": "",
  "XML": "<SpliceScheduleProgramType utcSpliceTime=\"\"></SpliceScheduleProgramType>"
 },
 {
  "Type": "SpliceScheduleProgramType",
  "Field": "UtcSpliceTime",
  "XML": "<SpliceScheduleProgramType utcSpliceTime=\"v7\"></SpliceScheduleProgramType>"
 },
 {
  "Type": "SpliceScheduleProgramType",
  "Field": "AnyAttrs",
  "XML": "<SpliceScheduleProgramType utcSpliceTime=\"\" other=\"v\"></SpliceScheduleProgramType>"
 },
 {
  "Type": "SpliceScheduleProgramType",
  "Field": "Ext",
  "XML": "<SpliceScheduleProgramType utcSpliceTime=\"\"><Ext></Ext></SpliceScheduleProgramType>"
 },
 {
  "Type": "SpliceScheduleComponentType",
  "Field": "",
  "XML": "<SpliceScheduleComponentType componentTag=\"0\" utcSpliceTime=\"\"></SpliceScheduleComponentType>"
 },
 {
  "Type": "SpliceScheduleComponentType",
  "Field": "ComponentTag",
  "XML": "<SpliceScheduleComponentType componentTag=\"7\" utcSpliceTime=\"\"></SpliceScheduleComponentType>"
 },
 {
  "Type": "SpliceScheduleComponentType",
  "Field": "UtcSpliceTime",
  "XML": "<SpliceScheduleComponentType componentTag=\"0\" utcSpliceTime=\"v7\"></SpliceScheduleComponentType>"
 },
 {
  "Type": "SpliceScheduleComponentType",
  "Field": "AnyAttrs",
  "XML": "<SpliceScheduleComponentType componentTag=\"0\" utcSpliceTime=\"\" other=\"v\"></SpliceScheduleComponentType>"
 },
 {
  "Type": "SpliceScheduleComponentType",
  "Field": "Ext",
  "XML": "<SpliceScheduleComponentType componentTag=\"0\" utcSpliceTime=\"\"><Ext></Ext></SpliceScheduleComponentType>"
 },
 {
  "Type": "BreakDurationType",
  "Field": "",
  "XML": "<BreakDurationType autoReturn=\"false\" duration=\"0\"></BreakDurationType>"
 },
 {
  "Type": "BreakDurationType",
  "Field": "AutoReturn",
  "XML": "<BreakDurationType autoReturn=\"true\" duration=\"0\"></BreakDurationType>"
 },
 {
  "Type": "BreakDurationType",
  "Field": "Duration",
  "XML": "<BreakDurationType autoReturn=\"false\" duration=\"7\"></BreakDurationType>"
 },
 {
  "Type": "BreakDurationType",
  "Field": "AnyAttrs",
  "XML": "<BreakDurationType autoReturn=\"false\" duration=\"0\" other=\"v\"></BreakDurationType>"
 },
 {
  "Type": "BreakDurationType",
  "Field": "Ext",
  "XML": "<BreakDurationType autoReturn=\"false\" duration=\"0\"><Ext></Ext></BreakDurationType>"
 },
 {
  "Type": "SpliceInsertType",
  "Field": "",
  "XML": "<SpliceInsertType></SpliceInsertType>"
 },
 {
  "Type": "SpliceInsertType",
  "Field": "SpliceEventId",
  "XML": "<SpliceInsertType spliceEventId=\"7\"></SpliceInsertType>"
 },
 {
  "Type": "SpliceInsertType",
  "Field": "SpliceEventCancelIndicator",
  "XML": "<SpliceInsertType spliceEventCancelIndicator=\"true\"></SpliceInsertType>"
 },
 {
  "Type": "SpliceInsertType",
  "Field": "OutOfNetworkIndicator",
  "XML": "<SpliceInsertType outOfNetworkIndicator=\"true\"></SpliceInsertType>"
 },
 {
  "Type": "SpliceInsertType",
  "Field": "SpliceImmediateFlag",
  "XML": "<SpliceInsertType spliceImmediateFlag=\"true\"></SpliceInsertType>"
 },
 {
  "Type": "SpliceInsertType",
  "Field": "EventIdComplianceFlag",
  "XML": "<SpliceInsertType eventIdComplianceFlag=\"true\"></SpliceInsertType>"
 },
 {
  "Type": "SpliceInsertType",
  "Field": "UniqueProgramId",
  "XML": "<SpliceInsertType uniqueProgramId=\"7\"></SpliceInsertType>"
 },
 {
  "Type": "SpliceInsertType",
  "Field": "AvailNum",
  "XML": "<SpliceInsertType availNum=\"7\"></SpliceInsertType>"
 },
 {
  "Type": "SpliceInsertType",
  "Field": "AvailsExpected",
  "XML": "<SpliceInsertType availsExpected=\"7\"></SpliceInsertType>"
 },
 {
  "Type": "SpliceInsertType",
  "Field": "Ext",
  "XML": "<SpliceInsertType><Ext></Ext></SpliceInsertType>"
 },
 {
  "Type": "SpliceInsertType",
  "Field": "Program",
  "XML": "<SpliceInsertType><Program></Program></SpliceInsertType>"
 },
 {
  "Type": "SpliceInsertType",
  "Field": "Components",
  "XML": "<SpliceInsertType><Component componentTag=\"0\"></Component></SpliceInsertType>"
 },
 {
  "Type": "SpliceInsertType",
  "Field": "BreakDuration",
  "XML": "<SpliceInsertType><BreakDuration autoReturn=\"false\" duration=\"0\"></BreakDuration></SpliceInsertType>"
 },
 {
  "Type": "SpliceInsertProgramType",
  "Field": "",
  "XML": "<SpliceInsertProgramType></SpliceInsertProgramType>"
 },
 {
  "Type": "SpliceInsertProgramType",
  "Field": "AnyAttrs",
  "XML": "<SpliceInsertProgramType other=\"v\"></SpliceInsertProgramType>"
 },
 {
  "Type": "SpliceInsertProgramType",
  "Field": "Ext",
  "XML": "<SpliceInsertProgramType><Ext></Ext></SpliceInsertProgramType>"
 },
 {
  "Type": "SpliceInsertProgramType",
  "Field": "SpliceTime",
  "XML": "<SpliceInsertProgramType><SpliceTime></SpliceTime></SpliceInsertProgramType>"
 },
 {
  "Type": "SpliceTimeType",
  "Field": "",
  "XML": "<SpliceTimeType></SpliceTimeType>"
 },
 {
  "Type": "SpliceTimeType",
  "Field": "PtsTime",
  "XML": "<SpliceTimeType ptsTime=\"7\"></SpliceTimeType>"
 },
 {
  "Type": "SpliceTimeType",
  "Field": "AnyAttrs",
  "XML": "<SpliceTimeType other=\"v\"></SpliceTimeType>"
 },
 {
  "Type": "SpliceTimeType",
  "Field": "Ext",
  "XML": "<SpliceTimeType><Ext></Ext></SpliceTimeType>"
 },
 {
  "Type": "SpliceInsertComponentType",
  "Field": "",
  "XML": "<SpliceInsertComponentType componentTag=\"0\"></SpliceInsertComponentType>"
 },
 {
  "Type": "SpliceInsertComponentType",
  "Field": "ComponentTag",
  "XML": "<SpliceInsertComponentType componentTag=\"7\"></SpliceInsertComponentType>"
 },
 {
  "Type": "SpliceInsertComponentType",
  "Field": "AnyAttrs",
  "XML": "<SpliceInsertComponentType componentTag=\"0\" other=\"v\"></SpliceInsertComponentType>"
 },
 {
  "Type": "SpliceInsertComponentType",
  "Field": "Ext",
  "XML": "<SpliceInsertComponentType componentTag=\"0\"><Ext></Ext></SpliceInsertComponentType>"
 },
 {
  "Type": "SpliceInsertComponentType",
  "Field": "SpliceTime",
  "XML": "<SpliceInsertComponentType componentTag=\"0\"><SpliceTime></SpliceTime></SpliceInsertComponentType>"
 },
 {
  "Type": "TimeSignalType",
  "Field": "",
  "XML": "<TimeSignalType></TimeSignalType>"
 },
 {
  "Type": "TimeSignalType",
  "Field": "Ext",
  "XML": "<TimeSignalType><Ext></Ext></TimeSignalType>"
 },
 {
  "Type": "TimeSignalType",
  "Field": "SpliceTime",
  "XML": "<TimeSignalType><SpliceTime></SpliceTime></TimeSignalType>"
 },
 {
  "Type": "BandwidthReservationType",
  "Field": "",
  "XML": "<BandwidthReservationType></BandwidthReservationType>"
 },
 {
  "Type": "BandwidthReservationType",
  "Field": "Ext",
  "XML": "<BandwidthReservationType><Ext></Ext></BandwidthReservationType>"
 },
 {
  "Type": "PrivateCommandType",
  "Field": "",
  "XML": "<PrivateCommandType identifier=\"0\"></PrivateCommandType>"
 },
 {
  "Type": "PrivateCommandType",
  "Field": "Identifier",
  "XML": "<PrivateCommandType identifier=\"7\"></PrivateCommandType>"
 },
 {
  "Type": "PrivateCommandType",
  "Field": "Ext",
  "XML": "<PrivateCommandType identifier=\"0\"><Ext></Ext></PrivateCommandType>"
 },
 {
  "Type": "PrivateCommandType",
  "Field": "PrivateBytes",
  "XML": "<PrivateCommandType identifier=\"0\"><PrivateBytes>v7</PrivateBytes></PrivateCommandType>"
 },
 {
  "Type": "AvailDescriptorType",
  "Field": "",
  "XML": "<AvailDescriptorType providerAvailId=\"0\"></AvailDescriptorType>"
 },
 {
  "Type": "AvailDescriptorType",
  "Field": "ProviderAvailId",
  "XML": "<AvailDescriptorType providerAvailId=\"7\"></AvailDescriptorType>"
 },
 {
  "Type": "AvailDescriptorType",
  "Field": "AnyAttrs",
  "XML": "<AvailDescriptorType providerAvailId=\"0\" other=\"v\"></AvailDescriptorType>"
 },
 {
  "Type": "AvailDescriptorType",
  "Field": "Ext",
  "XML": "<AvailDescriptorType providerAvailId=\"0\"><Ext></Ext></AvailDescriptorType>"
 },
 {
  "Type": "DTMFDescriptorType",
  "Field": "",
  "XML": "<DTMFDescriptorType></DTMFDescriptorType>"
 },
 {
  "Type": "DTMFDescriptorType",
  "Field": "Preroll",
  "XML": "<DTMFDescriptorType preroll=\"7\"></DTMFDescriptorType>"
 },
 {
  "Type": "DTMFDescriptorType",
  "Field": "Chars",
  "XML": "<DTMFDescriptorType chars=\"v7\"></DTMFDescriptorType>"
 },
 {
  "Type": "DTMFDescriptorType",
  "Field": "AnyAttrs",
  "XML": "<DTMFDescriptorType other=\"v\"></DTMFDescriptorType>"
 },
 {
  "Type": "DTMFDescriptorType",
  "Field": "Ext",
  "XML": "<DTMFDescriptorType><Ext></Ext></DTMFDescriptorType>"
 },
 {
  "Type": "SegmentationDescriptorType",
  "Field": "",
  "XML": "<SegmentationDescriptorType></SegmentationDescriptorType>"
 },
 {
  "Type": "SegmentationDescriptorType",
  "Field": "SegmentationEventId",
  "XML": "<SegmentationDescriptorType segmentationEventId=\"7\"></SegmentationDescriptorType>"
 },
 {
  "Type": "SegmentationDescriptorType",
  "Field": "SegmentationEventCancelIndicator",
  "XML": "<SegmentationDescriptorType segmentationEventCancelIndicator=\"true\"></SegmentationDescriptorType>"
 },
 {
  "Type": "SegmentationDescriptorType",
  "Field": "SegmentationEventIdComplianceIndicator",
  "XML": "<SegmentationDescriptorType segmentationEventIdComplianceIndicator=\"true\"></SegmentationDescriptorType>"
 },
 {
  "Type": "SegmentationDescriptorType",
  "Field": "SegmentationDuration",
  "XML": "<SegmentationDescriptorType segmentationDuration=\"7\"></SegmentationDescriptorType>"
 },
 {
  "Type": "SegmentationDescriptorType",
  "Field": "SegmentationTypeId",
  "XML": "<SegmentationDescriptorType segmentationTypeId=\"7\"></SegmentationDescriptorType>"
 },
 {
  "Type": "SegmentationDescriptorType",
  "Field": "SegmentNum",
  "XML": "<SegmentationDescriptorType segmentNum=\"7\"></SegmentationDescriptorType>"
 },
 {
  "Type": "SegmentationDescriptorType",
  "Field": "SegmentsExpected",
  "XML": "<SegmentationDescriptorType segmentsExpected=\"7\"></SegmentationDescriptorType>"
 },
 {
  "Type": "SegmentationDescriptorType",
  "Field": "SubSegmentNum",
  "XML": "<SegmentationDescriptorType subSegmentNum=\"7\"></SegmentationDescriptorType>"
 },
 {
  "Type": "SegmentationDescriptorType",
  "Field": "SubSegmentsExpected",
  "XML": "<SegmentationDescriptorType subSegmentsExpected=\"7\"></SegmentationDescriptorType>"
 },
 {
  "Type": "SegmentationDescriptorType",
  "Field": "AnyAttrs",
  "XML": "<SegmentationDescriptorType other=\"v\"></SegmentationDescriptorType>"
 },
 {
  "Type": "SegmentationDescriptorType",
  "Field": "Ext",
  "XML": "<SegmentationDescriptorType><Ext></Ext></SegmentationDescriptorType>"
 },
 {
  "Type": "SegmentationDescriptorType",
  "Field": "DeliveryRestrictions",
  "XML": "<SegmentationDescriptorType><DeliveryRestrictions webDeliveryAllowedFlag=\"false\" noRegionalBlackoutFlag=\"false\" archiveAllowedFlag=\"false\" deviceRestrictions=\"0\"></DeliveryRestrictions></SegmentationDescriptorType>"
 },
 {
  "Type": "SegmentationDescriptorType",
  "Field": "SegmentationUpids",
  "XML": "<SegmentationDescriptorType><SegmentationUpid></SegmentationUpid></SegmentationDescriptorType>"
 },
 {
  "Type": "SegmentationDescriptorType",
  "Field": "Components",
  "XML": "<SegmentationDescriptorType><Component componentTag=\"0\" ptsOffset=\"0\"></Component></SegmentationDescriptorType>"
 },
 {
  "Type": "DeliveryRestrictionsType",
  "Field": "",
  "XML": "<DeliveryRestrictionsType webDeliveryAllowedFlag=\"false\" noRegionalBlackoutFlag=\"false\" archiveAllowedFlag=\"false\" deviceRestrictions=\"0\"></DeliveryRestrictionsType>"
 },
 {
  "Type": "DeliveryRestrictionsType",
  "Field": "WebDeliveryAllowedFlag",
  "XML": "<DeliveryRestrictionsType webDeliveryAllowedFlag=\"true\" noRegionalBlackoutFlag=\"false\" archiveAllowedFlag=\"false\" deviceRestrictions=\"0\"></DeliveryRestrictionsType>"
 },
 {
  "Type": "DeliveryRestrictionsType",
  "Field": "NoRegionalBlackoutFlag",
  "XML": "<DeliveryRestrictionsType webDeliveryAllowedFlag=\"false\" noRegionalBlackoutFlag=\"true\" archiveAllowedFlag=\"false\" deviceRestrictions=\"0\"></DeliveryRestrictionsType>"
 },
 {
  "Type": "DeliveryRestrictionsType",
  "Field": "ArchiveAllowedFlag",
  "XML": "<DeliveryRestrictionsType webDeliveryAllowedFlag=\"false\" noRegionalBlackoutFlag=\"false\" archiveAllowedFlag=\"true\" deviceRestrictions=\"0\"></DeliveryRestrictionsType>"
 },
 {
  "Type": "DeliveryRestrictionsType",
  "Field": "DeviceRestrictions",
  "XML": "<DeliveryRestrictionsType webDeliveryAllowedFlag=\"false\" noRegionalBlackoutFlag=\"false\" archiveAllowedFlag=\"false\" deviceRestrictions=\"7\"></DeliveryRestrictionsType>"
 },
 {
  "Type": "DeliveryRestrictionsType",
  "Field": "AnyAttrs",
  "XML": "<DeliveryRestrictionsType webDeliveryAllowedFlag=\"false\" noRegionalBlackoutFlag=\"false\" archiveAllowedFlag=\"false\" deviceRestrictions=\"0\" other=\"v\"></DeliveryRestrictionsType>"
 },
 {
  "Type": "DeliveryRestrictionsType",
  "Field": "Ext",
  "XML": "<DeliveryRestrictionsType webDeliveryAllowedFlag=\"false\" noRegionalBlackoutFlag=\"false\" archiveAllowedFlag=\"false\" deviceRestrictions=\"0\"><Ext></Ext></DeliveryRestrictionsType>"
 },
 {
  "Type": "SegmentationUpidType",
  "Field": "",
  "XML": "<SegmentationUpidType></SegmentationUpidType>"
 },
 {
  "Type": "SegmentationUpidType",
  "Field": "SegmentationUpidType",
  "XML": "<SegmentationUpidType segmentationUpidType=\"7\"></SegmentationUpidType>"
 },
 {
  "Type": "SegmentationUpidType",
  "Field": "FormatIdentifier",
  "XML": "<SegmentationUpidType formatIdentifier=\"7\"></SegmentationUpidType>"
 },
 {
  "Type": "SegmentationUpidType",
  "Field": "SegmentationUpidFormat",
  "XML": "<SegmentationUpidType segmentationUpidFormat=\"v7\"></SegmentationUpidType>"
 },
 {
  "Type": "SegmentationUpidType",
  "Field": "AnyAttrs",
  "XML": "<SegmentationUpidType other=\"v\"></SegmentationUpidType>"
 },
 {
  "Type": "SegmentationUpidType",
  "Field": "Value",
  "XML": "<SegmentationUpidType>v7</SegmentationUpidType>"
 },
 {
  "Type": "SegmentationDescriptorComponentType",
  "Field": "",
  "XML": "<SegmentationDescriptorComponentType componentTag=\"0\" ptsOffset=\"0\"></SegmentationDescriptorComponentType>"
 },
 {
  "Type": "SegmentationDescriptorComponentType",
  "Field": "ComponentTag",
  "XML": "<SegmentationDescriptorComponentType componentTag=\"7\" ptsOffset=\"0\"></SegmentationDescriptorComponentType>"
 },
 {
  "Type": "SegmentationDescriptorComponentType",
  "Field": "PtsOffset",
  "XML": "<SegmentationDescriptorComponentType componentTag=\"0\" ptsOffset=\"7\"></SegmentationDescriptorComponentType>"
 },
 {
  "Type": "SegmentationDescriptorComponentType",
  "Field": "AnyAttrs",
  "XML": "<SegmentationDescriptorComponentType componentTag=\"0\" ptsOffset=\"0\" other=\"v\"></SegmentationDescriptorComponentType>"
 },
 {
  "Type": "SegmentationDescriptorComponentType",
  "Field": "Ext",
  "XML": "<SegmentationDescriptorComponentType componentTag=\"0\" ptsOffset=\"0\"><Ext></Ext></SegmentationDescriptorComponentType>"
 },
 {
  "Type": "TimeDescriptorType",
  "Field": "",
  "XML": "<TimeDescriptorType></TimeDescriptorType>"
 },
 {
  "Type": "TimeDescriptorType",
  "Field": "TaiSeconds",
  "XML": "<TimeDescriptorType taiSeconds=\"7\"></TimeDescriptorType>"
 },
 {
  "Type": "TimeDescriptorType",
  "Field": "TaiNs",
  "XML": "<TimeDescriptorType taiNs=\"7\"></TimeDescriptorType>"
 },
 {
  "Type": "TimeDescriptorType",
  "Field": "UtcOffset",
  "XML": "<TimeDescriptorType utcOffset=\"7\"></TimeDescriptorType>"
 },
 {
  "Type": "TimeDescriptorType",
  "Field": "AnyAttrs",
  "XML": "<TimeDescriptorType other=\"v\"></TimeDescriptorType>"
 },
 {
  "Type": "TimeDescriptorType",
  "Field": "Ext",
  "XML": "<TimeDescriptorType><Ext></Ext></TimeDescriptorType>"
 },
 {
  "Type": "AudioDescriptorType",
  "Field": "",
  "XML": "<AudioDescriptorType></AudioDescriptorType>"
 },
 {
  "Type": "AudioDescriptorType",
  "Field": "AnyAttrs",
  "XML": "<AudioDescriptorType other=\"v\"></AudioDescriptorType>"
 },
 {
  "Type": "AudioDescriptorType",
  "Field": "Ext",
  "XML": "<AudioDescriptorType><Ext></Ext></AudioDescriptorType>"
 },
 {
  "Type": "AudioDescriptorType",
  "Field": "AudioChannels",
  "XML": "<AudioDescriptorType><AudioChannel ISOCode=\"\" BitStreamMode=\"0\" NumChannels=\"0\" FullSrvcAudio=\"0\"></AudioChannel></AudioDescriptorType>"
 },
 {
  "Type": "AudioChannelType",
  "Field": "",
  "XML": "<AudioChannelType ISOCode=\"\" BitStreamMode=\"0\" NumChannels=\"0\" FullSrvcAudio=\"0\"></AudioChannelType>"
 },
 {
  "Type": "AudioChannelType",
  "Field": "ISOCode",
  "XML": "<AudioChannelType ISOCode=\"v7\" BitStreamMode=\"0\" NumChannels=\"0\" FullSrvcAudio=\"0\"></AudioChannelType>"
 },
 {
  "Type": "AudioChannelType",
  "Field": "BitStreamMode",
  "XML": "<AudioChannelType ISOCode=\"\" BitStreamMode=\"7\" NumChannels=\"0\" FullSrvcAudio=\"0\"></AudioChannelType>"
 },
 {
  "Type": "AudioChannelType",
  "Field": "NumChannels",
  "XML": "<AudioChannelType ISOCode=\"\" BitStreamMode=\"0\" NumChannels=\"7\" FullSrvcAudio=\"0\"></AudioChannelType>"
 },
 {
  "Type": "AudioChannelType",
  "Field": "FullSrvcAudio",
  "XML": "<AudioChannelType ISOCode=\"\" BitStreamMode=\"0\" NumChannels=\"0\" FullSrvcAudio=\"7\"></AudioChannelType>"
 },
 {
  "Type": "AudioChannelType",
  "Field": "ComponentTag",
  "XML": "<AudioChannelType ISOCode=\"\" BitStreamMode=\"0\" NumChannels=\"0\" FullSrvcAudio=\"0\" componentTag=\"7\"></AudioChannelType>"
 },
 {
  "Type": "AudioChannelType",
  "Field": "AnyAttrs",
  "XML": "<AudioChannelType ISOCode=\"\" BitStreamMode=\"0\" NumChannels=\"0\" FullSrvcAudio=\"0\" other=\"v\"></AudioChannelType>"
 },
 {
  "Type": "AudioChannelType",
  "Field": "Ext",
  "XML": "<AudioChannelType ISOCode=\"\" BitStreamMode=\"0\" NumChannels=\"0\" FullSrvcAudio=\"0\"><Ext></Ext></AudioChannelType>"
 },
 {
  "Type": "PrivateDescriptorType",
  "Field": "",
  "XML": "<PrivateDescriptorType descriptorTag=\"0\" identifier=\"0\"></PrivateDescriptorType>"
 },
 {
  "Type": "PrivateDescriptorType",
  "Field": "DescriptorTag",
  "XML": "<PrivateDescriptorType descriptorTag=\"7\" identifier=\"0\"></PrivateDescriptorType>"
 },
 {
  "Type": "PrivateDescriptorType",
  "Field": "Identifier",
  "XML": "<PrivateDescriptorType descriptorTag=\"0\" identifier=\"7\"></PrivateDescriptorType>"
 },
 {
  "Type": "PrivateDescriptorType",
  "Field": "AnyAttrs",
  "XML": "<PrivateDescriptorType descriptorTag=\"0\" identifier=\"0\" other=\"v\"></PrivateDescriptorType>"
 },
 {
  "Type": "PrivateDescriptorType",
  "Field": "Ext",
  "XML": "<PrivateDescriptorType descriptorTag=\"0\" identifier=\"0\"><Ext></Ext></PrivateDescriptorType>"
 },
 {
  "Type": "PrivateDescriptorType",
  "Field": "PrivateBytes",
  "XML": "<PrivateDescriptorType descriptorTag=\"0\" identifier=\"0\"><PrivateBytes>v7</PrivateBytes></PrivateDescriptorType>"
 },
 {
  "Type": "BinaryType",
  "Field": "",
  "XML": "<BinaryType></BinaryType>"
 },
 {
  "Type": "BinaryType",
  "Field": "SignalType",
  "XML": "<BinaryType signalType=\"v7\"></BinaryType>"
 },
 {
  "Type": "BinaryType",
  "Field": "Value",
  "XML": "<BinaryType>v7</BinaryType>"
 },
 {
  "Type": "SwitchingType",
  "Field": "",
  "XML": "<Switching interval=\"0\"></Switching>"
 },
 {
  "Type": "SwitchingType",
  "Field": "Interval",
  "XML": "<Switching interval=\"7\"></Switching>"
 },
 {
  "Type": "SwitchingType",
  "Field": "Type",
  "XML": "<Switching interval=\"0\" type=\"v7\"></Switching>"
 },
 {
  "Type": "RandomAccessType",
  "Field": "",
  "XML": "<RandomAccess interval=\"0\"></RandomAccess>"
 },
 {
  "Type": "RandomAccessType",
  "Field": "Interval",
  "XML": "<RandomAccess interval=\"7\"></RandomAccess>"
 },
 {
  "Type": "RandomAccessType",
  "Field": "Type",
  "XML": "<RandomAccess interval=\"0\" type=\"v7\"></RandomAccess>"
 },
 {
  "Type": "RandomAccessType",
  "Field": "MinBufferTime",
  "XML": "<RandomAccess interval=\"0\" minBufferTime=\"PT7S\"></RandomAccess>"
 },
 {
  "Type": "RandomAccessType",
  "Field": "Bandwidth",
  "XML": "<RandomAccess interval=\"0\" bandwidth=\"7\"></RandomAccess>"
 },
 {
  "Type": "LabelType",
  "Field": "",
  "XML": "<LabelType></LabelType>"
 },
 {
  "Type": "LabelType",
  "Field": "Id",
  "XML": "<LabelType id=\"7\"></LabelType>"
 },
 {
  "Type": "LabelType",
  "Field": "Lang",
  "XML": "<LabelType lang=\"v7\"></LabelType>"
 },
 {
  "Type": "LabelType",
  "Field": "Value",
  "XML": "<LabelType>v7</LabelType>"
 },
 {
  "Type": "ProducerReferenceTimeType",
  "Field": "",
  "XML": "<ProducerReferenceTime id=\"0\" wallClockTime=\"\" presentationTime=\"0\"></ProducerReferenceTime>"
 },
 {
  "Type": "ProducerReferenceTimeType",
  "Field": "Id",
  "XML": "<ProducerReferenceTime id=\"7\" wallClockTime=\"\" presentationTime=\"0\"></ProducerReferenceTime>"
 },
 {
  "Type": "ProducerReferenceTimeType",
  "Field": "Inband",
  "XML": "<ProducerReferenceTime id=\"0\" inband=\"true\" wallClockTime=\"\" presentationTime=\"0\"></ProducerReferenceTime>"
 },
 {
  "Type": "ProducerReferenceTimeType",
  "Field": "Type",
  "XML": "<ProducerReferenceTime id=\"0\" type=\"v7\" wallClockTime=\"\" presentationTime=\"0\"></ProducerReferenceTime>"
 },
 {
  "Type": "ProducerReferenceTimeType",
  "Field": "ApplicationScheme",
  "XML": "<ProducerReferenceTime id=\"0\" applicationScheme=\"v7\" wallClockTime=\"\" presentationTime=\"0\"></ProducerReferenceTime>"
 },
 {
  "Type": "ProducerReferenceTimeType",
  "Field": "WallClockTime",
  "XML": "<ProducerReferenceTime id=\"0\" wallClockTime=\"v7\" presentationTime=\"0\"></ProducerReferenceTime>"
 },
 {
  "Type": "ProducerReferenceTimeType",
  "Field": "PresentationTime",
  "XML": "<ProducerReferenceTime id=\"0\" wallClockTime=\"\" presentationTime=\"7\"></ProducerReferenceTime>"
 },
 {
  "Type": "ProducerReferenceTimeType",
  "Field": "UTCTiming",
  "XML": "<ProducerReferenceTime id=\"0\" wallClockTime=\"\" presentationTime=\"0\"><UTCTiming></UTCTiming></ProducerReferenceTime>"
 },
 {
  "Type": "ContentPopularityRateType",
  "Field": "",
  "XML": "<ContentPopularityRate source=\"\"></ContentPopularityRate>"
 },
 {
  "Type": "ContentPopularityRateType",
  "Field": "Source",
  "XML": "<ContentPopularityRate source=\"v7\"></ContentPopularityRate>"
 },
 {
  "Type": "ContentPopularityRateType",
  "Field": "Sourcedescription",
  "XML": "<ContentPopularityRate source=\"\" source_description=\"v7\"></ContentPopularityRate>"
 },
 {
  "Type": "ContentPopularityRateType",
  "Field": "PR",
  "XML": "<ContentPopularityRate source=\"\"><PR popularityRate=\"0\"></PR></ContentPopularityRate>"
 },
 {
  "Type": "PR",
  "Field": "",
  "XML": "<PR popularityRate=\"0\"></PR>"
 },
 {
  "Type": "PR",
  "Field": "PopularityRate",
  "XML": "<PR popularityRate=\"7\"></PR>"
 },
 {
  "Type": "PR",
  "Field": "Start",
  "XML": "<PR popularityRate=\"0\" start=\"7\"></PR>"
 },
 {
  "Type": "PR",
  "Field": "R",
  "XML": "<PR popularityRate=\"0\" r=\"7\"></PR>"
 },
 {
  "Type": "ResyncType",
  "Field": "",
  "XML": "<Resync type=\"0\" dImin=\"0\" marker=\"false\"></Resync>"
 },
 {
  "Type": "ResyncType",
  "Field": "Type",
  "XML": "<Resync type=\"7\" dImin=\"0\" marker=\"false\"></Resync>"
 },
 {
  "Type": "ResyncType",
  "Field": "DT",
  "XML": "<Resync type=\"0\" dT=\"7\" dImin=\"0\" marker=\"false\"></Resync>"
 },
 {
  "Type": "ResyncType",
  "Field": "DImax",
  "XML": "<Resync type=\"0\" dImax=\"7.5\" dImin=\"0\" marker=\"false\"></Resync>"
 },
 {
  "Type": "ResyncType",
  "Field": "DImin",
  "XML": "<Resync type=\"0\" dImin=\"7.5\" marker=\"false\"></Resync>"
 },
 {
  "Type": "ResyncType",
  "Field": "Marker",
  "XML": "<Resync type=\"0\" dImin=\"0\" marker=\"true\"></Resync>"
 },
 {
  "Type": "SegmentSequencePropertiesType",
  "Field": "",
  "XML": "<SegmentSequencePropertiesType sapType=\"0\"></SegmentSequencePropertiesType>"
 },
 {
  "Type": "SegmentSequencePropertiesType",
  "Field": "SapType",
  "XML": "<SegmentSequencePropertiesType sapType=\"7\"></SegmentSequencePropertiesType>"
 },
 {
  "Type": "SegmentSequencePropertiesType",
  "Field": "Cadence",
  "XML": "<SegmentSequencePropertiesType sapType=\"0\" cadence=\"7\"></SegmentSequencePropertiesType>"
 },
 {
  "Type": "SegmentSequencePropertiesType",
  "Field": "Event",
  "XML": "<SegmentSequencePropertiesType sapType=\"0\" event=\"true\"></SegmentSequencePropertiesType>"
 },
 {
  "Type": "SegmentSequencePropertiesType",
  "Field": "Alignment",
  "XML": "<SegmentSequencePropertiesType sapType=\"0\" alignment=\"v7\"></SegmentSequencePropertiesType>"
 },
 {
  "Type": "UIntVWithIDType",
  "Field": "",
  "XML": "<UIntVWithIDType id=\"0\"></UIntVWithIDType>"
 },
 {
  "Type": "UIntVWithIDType",
  "Field": "Id",
  "XML": "<UIntVWithIDType id=\"7\"></UIntVWithIDType>"
 },
 {
  "Type": "UIntVWithIDType",
  "Field": "Profiles",
  "XML": "<UIntVWithIDType id=\"0\" profiles=\"v7\"></UIntVWithIDType>"
 },
 {
  "Type": "UIntVWithIDType",
  "Field": "ContentType",
  "XML": "<UIntVWithIDType id=\"0\" contentType=\"v7\"></UIntVWithIDType>"
 },
 {
  "Type": "UIntVWithIDType",
  "Field": "UIntVectorType",
  "XML": "<UIntVWithIDType id=\"0\">v7</UIntVWithIDType>"
 },
 {
  "Type": "Period",
  "Field": "",
  "XML": "<Period></Period>"
 },
 {
  "Type": "Period",
  "Field": "XlinkHref",
  "XML": "<Period xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:href=\"v7\"></Period>"
 },
 {
  "Type": "Period",
  "Field": "XlinkActuate",
  "XML": "<Period xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:actuate=\"v7\"></Period>"
 },
 {
  "Type": "Period",
  "Field": "XlinkType",
  "XML": "<Period xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:type=\"v7\"></Period>"
 },
 {
  "Type": "Period",
  "Field": "XlinkShow",
  "XML": "<Period xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:show=\"v7\"></Period>"
 },
 {
  "Type": "Period",
  "Field": "Id",
  "XML": "<Period id=\"v7\"></Period>"
 },
 {
  "Type": "Period",
  "Field": "Start",
  "XML": "<Period start=\"PT7S\"></Period>"
 },
 {
  "Type": "Period",
  "Field": "Duration",
  "XML": "<Period duration=\"PT7S\"></Period>"
 },
 {
  "Type": "Period",
  "Field": "BitstreamSwitching",
  "XML": "<Period bitstreamSwitching=\"true\"></Period>"
 },
 {
  "Type": "Period",
  "Field": "MinBufferTime",
  "XML": "<Period minBufferTime=\"PT7S\"></Period>"
 },
 {
  "Type": "Period",
  "Field": "ImportedMPDs",
  "XML": "<Period><ImportedMPD earliestResolutionTimeOffset=\"0\"></ImportedMPD></Period>"
 },
 {
  "Type": "Period",
  "Field": "BaseURLs",
  "XML": "<Period><BaseURL></BaseURL></Period>"
 },
 {
  "Type": "Period",
  "Field": "RequestParam",
  "XML": "<Period><RequestParam></RequestParam></Period>"
 },
 {
  "Type": "Period",
  "Field": "SegmentBase",
  "XML": "<Period><SegmentBase></SegmentBase></Period>"
 },
 {
  "Type": "Period",
  "Field": "SegmentList",
  "XML": "<Period><SegmentList></SegmentList></Period>"
 },
 {
  "Type": "Period",
  "Field": "SegmentTemplate",
  "XML": "<Period><SegmentTemplate></SegmentTemplate></Period>"
 },
 {
  "Type": "Period",
  "Field": "AssetIdentifier",
  "XML": "<Period><AssetIdentifier></AssetIdentifier></Period>"
 },
 {
  "Type": "Period",
  "Field": "EventStreams",
  "XML": "<Period><EventStream schemeIdUri=\"\"></EventStream></Period>"
 },
 {
  "Type": "Period",
  "Field": "ServiceDescriptions",
  "XML": "<Period><ServiceDescription id=\"0\"></ServiceDescription></Period>"
 },
 {
  "Type": "Period",
  "Field": "ContentProtections",
  "XML": "<Period><ContentProtection></ContentProtection></Period>"
 },
 {
  "Type": "Period",
  "Field": "AdaptationSets",
  "XML": "<Period><AdaptationSet></AdaptationSet></Period>"
 },
 {
  "Type": "Period",
  "Field": "Subsets",
  "XML": "<Period><Subset></Subset></Period>"
 },
 {
  "Type": "Period",
  "Field": "SupplementalProperties",
  "XML": "<Period><SupplementalProperty></SupplementalProperty></Period>"
 },
 {
  "Type": "Period",
  "Field": "EmptyAdaptationSets",
  "XML": "<Period><EmptyAdaptationSet></EmptyAdaptationSet></Period>"
 },
 {
  "Type": "Period",
  "Field": "GroupLabels",
  "XML": "<Period><GroupLabel></GroupLabel></Period>"
 },
 {
  "Type": "Period",
  "Field": "Preselections",
  "XML": "<Period><Preselection></Preselection></Period>"
 },
 {
  "Type": "ImportedMpdType",
  "Field": "",
  "XML": "<ImportedMpdType earliestResolutionTimeOffset=\"0\"></ImportedMpdType>"
 },
 {
  "Type": "ImportedMpdType",
  "Field": "EarliestResolutionTimeOffset",
  "XML": "<ImportedMpdType earliestResolutionTimeOffset=\"7.5\"></ImportedMpdType>"
 },
 {
  "Type": "ImportedMpdType",
  "Field": "Value",
  "XML": "<ImportedMpdType earliestResolutionTimeOffset=\"0\">v7</ImportedMpdType>"
 },
 {
  "Type": "SegmentBaseType",
  "Field": "",
  "XML": "<SegmentBaseType></SegmentBaseType>"
 },
 {
  "Type": "SegmentBaseType",
  "Field": "Timescale",
  "XML": "<SegmentBaseType timescale=\"7\"></SegmentBaseType>"
 },
 {
  "Type": "SegmentBaseType",
  "Field": "EptDelta",
  "XML": "<SegmentBaseType eptDelta=\"7\"></SegmentBaseType>"
 },
 {
  "Type": "SegmentBaseType",
  "Field": "PdDelta",
  "XML": "<SegmentBaseType pdDelta=\"7\"></SegmentBaseType>"
 },
 {
  "Type": "SegmentBaseType",
  "Field": "PresentationTimeOffset",
  "XML": "<SegmentBaseType presentationTimeOffset=\"7\"></SegmentBaseType>"
 },
 {
  "Type": "SegmentBaseType",
  "Field": "PresentationDuration",
  "XML": "<SegmentBaseType presentationDuration=\"7\"></SegmentBaseType>"
 },
 {
  "Type": "SegmentBaseType",
  "Field": "TimeShiftBufferDepth",
  "XML": "<SegmentBaseType timeShiftBufferDepth=\"PT7S\"></SegmentBaseType>"
 },
 {
  "Type": "SegmentBaseType",
  "Field": "IndexRange",
  "XML": "<SegmentBaseType indexRange=\"v7\"></SegmentBaseType>"
 },
 {
  "Type": "SegmentBaseType",
  "Field": "IndexRangeExact",
  "XML": "<SegmentBaseType indexRangeExact=\"true\"></SegmentBaseType>"
 },
 {
  "Type": "SegmentBaseType",
  "Field": "AvailabilityTimeOffset",
  "XML": "<SegmentBaseType availabilityTimeOffset=\"7.5\"></SegmentBaseType>"
 },
 {
  "Type": "SegmentBaseType",
  "Field": "AvailabilityTimeComplete",
  "XML": "<SegmentBaseType availabilityTimeComplete=\"true\"></SegmentBaseType>"
 },
 {
  "Type": "SegmentBaseType",
  "Field": "Initialization",
  "XML": "<SegmentBaseType><Initialization></Initialization></SegmentBaseType>"
 },
 {
  "Type": "SegmentBaseType",
  "Field": "RepresentationIndex",
  "XML": "<SegmentBaseType><RepresentationIndex></RepresentationIndex></SegmentBaseType>"
 },
 {
  "Type": "SegmentBaseType",
  "Field": "FailoverContent",
  "XML": "<SegmentBaseType><FailoverContent></FailoverContent></SegmentBaseType>"
 },
 {
  "Type": "URLType",
  "Field": "",
  "XML": "<URLType></URLType>"
 },
 {
  "Type": "URLType",
  "Field": "SourceURL",
  "XML": "<URLType sourceURL=\"v7\"></URLType>"
 },
 {
  "Type": "URLType",
  "Field": "Range",
  "XML": "<URLType range=\"v7\"></URLType>"
 },
 {
  "Type": "FailoverContentType",
  "Field": "",
  "XML": "<FailoverContentType></FailoverContentType>"
 },
 {
  "Type": "FailoverContentType",
  "Field": "Valid",
  "XML": "<FailoverContentType valid=\"true\"></FailoverContentType>"
 },
 {
  "Type": "FailoverContentType",
  "Field": "FCS",
  "XML": "<FailoverContentType><FCS t=\"0\"></FCS></FailoverContentType>"
 },
 {
  "Type": "FCS",
  "Field": "",
  "XML": "<FCS t=\"0\"></FCS>"
 },
 {
  "Type": "FCS",
  "Field": "T",
  "XML": "<FCS t=\"7\"></FCS>"
 },
 {
  "Type": "FCS",
  "Field": "D",
  "XML": "<FCS t=\"0\" d=\"7\"></FCS>"
 },
 {
  "Type": "SegmentListType",
  "Field": "",
  "XML": "<SegmentListType></SegmentListType>"
 },
 {
  "Type": "SegmentListType",
  "Field": "XlinkHref",
  "XML": "<SegmentListType xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:href=\"v7\"></SegmentListType>"
 },
 {
  "Type": "SegmentListType",
  "Field": "XlinkActuate",
  "XML": "<SegmentListType xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:actuate=\"v7\"></SegmentListType>"
 },
 {
  "Type": "SegmentListType",
  "Field": "XlinkType",
  "XML": "<SegmentListType xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:type=\"v7\"></SegmentListType>"
 },
 {
  "Type": "SegmentListType",
  "Field": "XlinkShow",
  "XML": "<SegmentListType xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:show=\"v7\"></SegmentListType>"
 },
 {
  "Type": "SegmentListType",
  "Field": "SegmentURL",
  "XML": "<SegmentListType><SegmentURL></SegmentURL></SegmentListType>"
 },
 {
  "Type": "SegmentURLType",
  "Field": "",
  "XML": "<SegmentURLType></SegmentURLType>"
 },
 {
  "Type": "SegmentURLType",
  "Field": "Media",
  "XML": "<SegmentURLType media=\"v7\"></SegmentURLType>"
 },
 {
  "Type": "SegmentURLType",
  "Field": "MediaRange",
  "XML": "<SegmentURLType mediaRange=\"v7\"></SegmentURLType>"
 },
 {
  "Type": "SegmentURLType",
  "Field": "Index",
  "XML": "<SegmentURLType index=\"v7\"></SegmentURLType>"
 },
 {
  "Type": "SegmentURLType",
  "Field": "IndexRange",
  "XML": "<SegmentURLType indexRange=\"v7\"></SegmentURLType>"
 },
 {
  "Type": "MultipleSegmentBaseType",
  "Field": "",
  "XML": "<MultipleSegmentBaseType></MultipleSegmentBaseType>"
 },
 {
  "Type": "MultipleSegmentBaseType",
  "Field": "Duration",
  "XML": "<MultipleSegmentBaseType duration=\"7\"></MultipleSegmentBaseType>"
 },
 {
  "Type": "MultipleSegmentBaseType",
  "Field": "Tolerance",
  "XML": "<MultipleSegmentBaseType tolerance=\"7.5\"></MultipleSegmentBaseType>"
 },
 {
  "Type": "MultipleSegmentBaseType",
  "Field": "StartNumber",
  "XML": "<MultipleSegmentBaseType startNumber=\"7\"></MultipleSegmentBaseType>"
 },
 {
  "Type": "MultipleSegmentBaseType",
  "Field": "EndNumber",
  "XML": "<MultipleSegmentBaseType endNumber=\"7\"></MultipleSegmentBaseType>"
 },
 {
  "Type": "MultipleSegmentBaseType",
  "Field": "EndSubNumber",
  "XML": "<MultipleSegmentBaseType endSubNumber=\"7\"></MultipleSegmentBaseType>"
 },
 {
  "Type": "MultipleSegmentBaseType",
  "Field": "K",
  "XML": "<MultipleSegmentBaseType k=\"7\"></MultipleSegmentBaseType>"
 },
 {
  "Type": "MultipleSegmentBaseType",
  "Field": "SegmentTimeline",
  "XML": "<MultipleSegmentBaseType><SegmentTimeline></SegmentTimeline></MultipleSegmentBaseType>"
 },
 {
  "Type": "MultipleSegmentBaseType",
  "Field": "BitstreamSwitching",
  "XML": "<MultipleSegmentBaseType><BitstreamSwitching></BitstreamSwitching></MultipleSegmentBaseType>"
 },
 {
  "Type": "SegmentTimelineType",
  "Field": "",
  "XML": "<SegmentTimelineType></SegmentTimelineType>"
 },
 {
  "Type": "SegmentTimelineType",
  "Field": "Pattern",
  "XML": "<SegmentTimelineType><Pattern id=\"0\"></Pattern></SegmentTimelineType>"
 },
 {
  "Type": "SegmentTimelineType",
  "Field": "S",
  "XML": "<SegmentTimelineType><S></S></SegmentTimelineType>"
 },
 {
  "Type": "PatternType",
  "Field": "",
  "XML": "<PatternType id=\"0\"></PatternType>"
 },
 {
  "Type": "PatternType",
  "Field": "Id",
  "XML": "<PatternType id=\"7\"></PatternType>"
 },
 {
  "Type": "PatternType",
  "Field": "P",
  "XML": "<PatternType id=\"0\"><P d=\"0\"></P></PatternType>"
 },
 {
  "Type": "RunLengthType",
  "Field": "",
  "XML": "<RunLengthType d=\"0\"></RunLengthType>"
 },
 {
  "Type": "RunLengthType",
  "Field": "D",
  "XML": "<RunLengthType d=\"7\"></RunLengthType>"
 },
 {
  "Type": "RunLengthType",
  "Field": "R",
  "XML": "<RunLengthType d=\"0\" r=\"7\"></RunLengthType>"
 },
 {
  "Type": "CommonSegmentSequenceAttributes",
  "Field": "",
  "XML": "<CommonSegmentSequenceAttributes></CommonSegmentSequenceAttributes>"
 },
 {
  "Type": "CommonSegmentSequenceAttributes",
  "Field": "K",
  "XML": "<CommonSegmentSequenceAttributes k=\"7\"></CommonSegmentSequenceAttributes>"
 },
 {
  "Type": "CommonSegmentSequenceDurationPatternAttributes",
  "Field": "",
  "XML": "<CommonSegmentSequenceDurationPatternAttributes></CommonSegmentSequenceDurationPatternAttributes>"
 },
 {
  "Type": "CommonSegmentSequenceDurationPatternAttributes",
  "Field": "Ssp",
  "XML": "<CommonSegmentSequenceDurationPatternAttributes ssp=\"7\"></CommonSegmentSequenceDurationPatternAttributes>"
 },
 {
  "Type": "S",
  "Field": "",
  "XML": "<S></S>"
 },
 {
  "Type": "S",
  "Field": "T",
  "XML": "<S t=\"7\"></S>"
 },
 {
  "Type": "S",
  "Field": "N",
  "XML": "<S n=\"7\"></S>"
 },
 {
  "Type": "S",
  "Field": "D",
  "XML": "<S d=\"7\"></S>"
 },
 {
  "Type": "S",
  "Field": "R",
  "XML": "<S r=\"7\"></S>"
 },
 {
  "Type": "CommonDurationPatternAttributes",
  "Field": "",
  "XML": "<CommonDurationPatternAttributes></CommonDurationPatternAttributes>"
 },
 {
  "Type": "CommonDurationPatternAttributes",
  "Field": "P",
  "XML": "<CommonDurationPatternAttributes p=\"7\"></CommonDurationPatternAttributes>"
 },
 {
  "Type": "CommonDurationPatternAttributes",
  "Field": "PE",
  "XML": "<CommonDurationPatternAttributes pE=\"7\"></CommonDurationPatternAttributes>"
 },
 {
  "Type": "SegmentTemplateType",
  "Field": "",
  "XML": "<SegmentTemplateType></SegmentTemplateType>"
 },
 {
  "Type": "SegmentTemplateType",
  "Field": "Media",
  "XML": "<SegmentTemplateType media=\"v7\"></SegmentTemplateType>"
 },
 {
  "Type": "SegmentTemplateType",
  "Field": "Index",
  "XML": "<SegmentTemplateType index=\"v7\"></SegmentTemplateType>"
 },
 {
  "Type": "SegmentTemplateType",
  "Field": "Initialization",
  "XML": "<SegmentTemplateType initialization=\"v7\"></SegmentTemplateType>"
 },
 {
  "Type": "SegmentTemplateType",
  "Field": "BitstreamSwitching",
  "XML": "<SegmentTemplateType bitstreamSwitching=\"v7\"></SegmentTemplateType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "",
  "XML": "<AdaptationSetType></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "XlinkHref",
  "XML": "<AdaptationSetType xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:href=\"v7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "XlinkActuate",
  "XML": "<AdaptationSetType xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:actuate=\"v7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "XlinkType",
  "XML": "<AdaptationSetType xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:type=\"v7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "XlinkShow",
  "XML": "<AdaptationSetType xmlns:xlink=\"http://www.w3.org/1999/xlink\" xlink:show=\"v7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "Id",
  "XML": "<AdaptationSetType id=\"7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "Group",
  "XML": "<AdaptationSetType group=\"7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "Lang",
  "XML": "<AdaptationSetType lang=\"v7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "ContentType",
  "XML": "<AdaptationSetType contentType=\"v7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "Par",
  "XML": "<AdaptationSetType par=\"v7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "MinBandwidth",
  "XML": "<AdaptationSetType minBandwidth=\"7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "MaxBandwidth",
  "XML": "<AdaptationSetType maxBandwidth=\"7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "MinWidth",
  "XML": "<AdaptationSetType minWidth=\"7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "MaxWidth",
  "XML": "<AdaptationSetType maxWidth=\"7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "MinHeight",
  "XML": "<AdaptationSetType minHeight=\"7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "MaxHeight",
  "XML": "<AdaptationSetType maxHeight=\"7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "MinFrameRate",
  "XML": "<AdaptationSetType minFrameRate=\"v7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "MaxFrameRate",
  "XML": "<AdaptationSetType maxFrameRate=\"v7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "SegmentAlignment",
  "XML": "<AdaptationSetType segmentAlignment=\"true\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "SubsegmentAlignment",
  "XML": "<AdaptationSetType subsegmentAlignment=\"true\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "SubsegmentStartsWithSAP",
  "XML": "<AdaptationSetType subsegmentStartsWithSAP=\"7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "BitstreamSwitching",
  "XML": "<AdaptationSetType bitstreamSwitching=\"true\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "InitializationSetRef",
  "XML": "<AdaptationSetType initializationSetRef=\"v7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "InitializationPrincipal",
  "XML": "<AdaptationSetType initializationPrincipal=\"v7\"></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "Accessibilities",
  "XML": "<AdaptationSetType><Accessibility></Accessibility></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "Roles",
  "XML": "<AdaptationSetType><Role></Role></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "Ratings",
  "XML": "<AdaptationSetType><Rating></Rating></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "Viewpoints",
  "XML": "<AdaptationSetType><Viewpoint></Viewpoint></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "ContentComponents",
  "XML": "<AdaptationSetType><ContentComponent></ContentComponent></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "BaseURLs",
  "XML": "<AdaptationSetType><BaseURL></BaseURL></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "RequestParam",
  "XML": "<AdaptationSetType><RequestParam></RequestParam></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "SegmentBase",
  "XML": "<AdaptationSetType><SegmentBase></SegmentBase></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "SegmentList",
  "XML": "<AdaptationSetType><SegmentList></SegmentList></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "SegmentTemplate",
  "XML": "<AdaptationSetType><SegmentTemplate></SegmentTemplate></AdaptationSetType>"
 },
 {
  "Type": "AdaptationSetType",
  "Field": "Representations",
  "XML": "<AdaptationSetType><Representation id=\"\" bandwidth=\"0\"></Representation></AdaptationSetType>"
 },
 {
  "Type": "ContentComponentType",
  "Field": "",
  "XML": "<ContentComponent></ContentComponent>"
 },
 {
  "Type": "ContentComponentType",
  "Field": "Id",
  "XML": "<ContentComponent id=\"7\"></ContentComponent>"
 },
 {
  "Type": "ContentComponentType",
  "Field": "Lang",
  "XML": "<ContentComponent lang=\"v7\"></ContentComponent>"
 },
 {
  "Type": "ContentComponentType",
  "Field": "ContentType",
  "XML": "<ContentComponent contentType=\"v7\"></ContentComponent>"
 },
 {
  "Type": "ContentComponentType",
  "Field": "Par",
  "XML": "<ContentComponent par=\"v7\"></ContentComponent>"
 },
 {
  "Type": "ContentComponentType",
  "Field": "Tag",
  "XML": "<ContentComponent tag=\"v7\"></ContentComponent>"
 },
 {
  "Type": "ContentComponentType",
  "Field": "Accessibilities",
  "XML": "<ContentComponent><Accessibility></Accessibility></ContentComponent>"
 },
 {
  "Type": "ContentComponentType",
  "Field": "Roles",
  "XML": "<ContentComponent><Role></Role></ContentComponent>"
 },
 {
  "Type": "ContentComponentType",
  "Field": "Ratings",
  "XML": "<ContentComponent><Rating></Rating></ContentComponent>"
 },
 {
  "Type": "ContentComponentType",
  "Field": "Viewpoints",
  "XML": "<ContentComponent><Viewpoint></Viewpoint></ContentComponent>"
 },
 {
  "Type": "RepresentationType",
  "Field": "",
  "XML": "<Representation id=\"\" bandwidth=\"0\"></Representation>"
 },
 {
  "Type": "RepresentationType",
  "Field": "Id",
  "XML": "<Representation id=\"v7\" bandwidth=\"0\"></Representation>"
 },
 {
  "Type": "RepresentationType",
  "Field": "Bandwidth",
  "XML": "<Representation id=\"\" bandwidth=\"7\"></Representation>"
 },
 {
  "Type": "RepresentationType",
  "Field": "QualityRanking",
  "XML": "<Representation id=\"\" bandwidth=\"0\" qualityRanking=\"7\"></Representation>"
 },
 {
  "Type": "RepresentationType",
  "Field": "DependencyId",
  "XML": "<Representation id=\"\" bandwidth=\"0\" dependencyId=\"v7\"></Representation>"
 },
 {
  "Type": "RepresentationType",
  "Field": "AssociationId",
  "XML": "<Representation id=\"\" bandwidth=\"0\" associationId=\"v7\"></Representation>"
 },
 {
  "Type": "RepresentationType",
  "Field": "AssociationType",
  "XML": "<Representation id=\"\" bandwidth=\"0\" associationType=\"v7\"></Representation>"
 },
 {
  "Type": "RepresentationType",
  "Field": "MediaStreamStructureId",
  "XML": "<Representation id=\"\" bandwidth=\"0\" mediaStreamStructureId=\"v7\"></Representation>"
 },
 {
  "Type": "RepresentationType",
  "Field": "BaseURLs",
  "XML": "<Representation id=\"\" bandwidth=\"0\"><BaseURL></BaseURL></Representation>"
 },
 {
  "Type": "RepresentationType",
  "Field": "ExtendedBandwidths",
  "XML": "<Representation id=\"\" bandwidth=\"0\"><ExtendedBandwidth></ExtendedBandwidth></Representation>"
 },
 {
  "Type": "RepresentationType",
  "Field": "SubRepresentations",
  "XML": "<Representation id=\"\" bandwidth=\"0\"><SubRepresentation></SubRepresentation></Representation>"
 },
 {
  "Type": "RepresentationType",
  "Field": "RequestParam",
  "XML": "<Representation id=\"\" bandwidth=\"0\"><RequestParam></RequestParam></Representation>"
 },
 {
  "Type": "RepresentationType",
  "Field": "SegmentBase",
  "XML": "<Representation id=\"\" bandwidth=\"0\"><SegmentBase></SegmentBase></Representation>"
 },
 {
  "Type": "RepresentationType",
  "Field": "SegmentList",
  "XML": "<Representation id=\"\" bandwidth=\"0\"><SegmentList></SegmentList></Representation>"
 },
 {
  "Type": "RepresentationType",
  "Field": "SegmentTemplate",
  "XML": "<Representation id=\"\" bandwidth=\"0\"><SegmentTemplate></SegmentTemplate></Representation>"
 },
 {
  "Type": "ExtendedBandwidthType",
  "Field": "",
  "XML": "<ExtendedBandwidth></ExtendedBandwidth>"
 },
 {
  "Type": "ExtendedBandwidthType",
  "Field": "Vbr",
  "XML": "<ExtendedBandwidth vbr=\"true\"></ExtendedBandwidth>"
 },
 {
  "Type": "ExtendedBandwidthType",
  "Field": "ModelPairs",
  "XML": "<ExtendedBandwidth><ModelPair bandwidth=\"0\"></ModelPair></ExtendedBandwidth>"
 },
 {
  "Type": "ModelPairType",
  "Field": "",
  "XML": "<ModelPair bandwidth=\"0\"></ModelPair>"
 },
 {
  "Type": "ModelPairType",
  "Field": "BufferTime",
  "XML": "<ModelPair bufferTime=\"PT7S\" bandwidth=\"0\"></ModelPair>"
 },
 {
  "Type": "ModelPairType",
  "Field": "Bandwidth",
  "XML": "<ModelPair bandwidth=\"7\"></ModelPair>"
 },
 {
  "Type": "SubRepresentationType",
  "Field": "",
  "XML": "<SubRepresentation></SubRepresentation>"
 },
 {
  "Type": "SubRepresentationType",
  "Field": "Level",
  "XML": "<SubRepresentation level=\"7\"></SubRepresentation>"
 },
 {
  "Type": "SubRepresentationType",
  "Field": "DependencyLevel",
  "XML": "<SubRepresentation dependencyLevel=\"v7\"></SubRepresentation>"
 },
 {
  "Type": "SubRepresentationType",
  "Field": "Bandwidth",
  "XML": "<SubRepresentation bandwidth=\"7\"></SubRepresentation>"
 },
 {
  "Type": "SubRepresentationType",
  "Field": "ContentComponent",
  "XML": "<SubRepresentation contentComponent=\"v7\"></SubRepresentation>"
 },
 {
  "Type": "SubsetType",
  "Field": "",
  "XML": "<Subset></Subset>"
 },
 {
  "Type": "SubsetType",
  "Field": "Contains",
  "XML": "<Subset contains=\"v7\"></Subset>"
 },
 {
  "Type": "SubsetType",
  "Field": "Id",
  "XML": "<Subset id=\"v7\"></Subset>"
 },
 {
  "Type": "PreselectionType",
  "Field": "",
  "XML": "<Preselection></Preselection>"
 },
 {
  "Type": "PreselectionType",
  "Field": "Id",
  "XML": "<Preselection id=\"v7\"></Preselection>"
 },
 {
  "Type": "PreselectionType",
  "Field": "PreselectionComponents",
  "XML": "<Preselection preselectionComponents=\"v7\"></Preselection>"
 },
 {
  "Type": "PreselectionType",
  "Field": "Lang",
  "XML": "<Preselection lang=\"v7\"></Preselection>"
 },
 {
  "Type": "PreselectionType",
  "Field": "Order",
  "XML": "<Preselection order=\"v7\"></Preselection>"
 },
 {
  "Type": "PreselectionType",
  "Field": "Accessibilities",
  "XML": "<Preselection><Accessibility></Accessibility></Preselection>"
 },
 {
  "Type": "PreselectionType",
  "Field": "Roles",
  "XML": "<Preselection><Role></Role></Preselection>"
 },
 {
  "Type": "PreselectionType",
  "Field": "Ratings",
  "XML": "<Preselection><Rating></Rating></Preselection>"
 },
 {
  "Type": "PreselectionType",
  "Field": "Viewpoints",
  "XML": "<Preselection><Viewpoint></Viewpoint></Preselection>"
 },
 {
  "Type": "MetricsType",
  "Field": "",
  "XML": "<MetricsType metrics=\"\"></MetricsType>"
 },
 {
  "Type": "MetricsType",
  "Field": "Metrics",
  "XML": "<MetricsType metrics=\"v7\"></MetricsType>"
 },
 {
  "Type": "MetricsType",
  "Field": "Ranges",
  "XML": "<MetricsType metrics=\"\"><Range></Range></MetricsType>"
 },
 {
  "Type": "MetricsType",
  "Field": "Reportings",
  "XML": "<MetricsType metrics=\"\"><Reporting></Reporting></MetricsType>"
 },
 {
  "Type": "RangeType",
  "Field": "",
  "XML": "<RangeType></RangeType>"
 },
 {
  "Type": "RangeType",
  "Field": "Starttime",
  "XML": "<RangeType starttime=\"PT7S\"></RangeType>"
 },
 {
  "Type": "RangeType",
  "Field": "Duration",
  "XML": "<RangeType duration=\"PT7S\"></RangeType>"
 },
 {
  "Type": "LeapSecondInformationType",
  "Field": "",
  "XML": "<LeapSecondInformationType availabilityStartLeapOffset=\"0\"></LeapSecondInformationType>"
 },
 {
  "Type": "LeapSecondInformationType",
  "Field": "AvailabilityStartLeapOffset",
  "XML": "<LeapSecondInformationType availabilityStartLeapOffset=\"7\"></LeapSecondInformationType>"
 },
 {
  "Type": "LeapSecondInformationType",
  "Field": "NextAvailabilityStartLeapOffset",
  "XML": "<LeapSecondInformationType availabilityStartLeapOffset=\"0\" nextAvailabilityStartLeapOffset=\"7\"></LeapSecondInformationType>"
 },
 {
  "Type": "LeapSecondInformationType",
  "Field": "NextLeapChangeTime",
  "XML": "<LeapSecondInformationType availabilityStartLeapOffset=\"0\" nextLeapChangeTime=\"v7\"></LeapSecondInformationType>"
 }
]
`
