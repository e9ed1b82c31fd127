'use strict';
// The codec alphabet shared by the io-ts-http / router / client checks.
// Every entry: name, codec, and whether it is meant for the body only (its
// output is not a string) or may sit in params/query/headers.
module.exports = function codecs(b) {
  const t = b.require('io-ts');
  const T = b.require('io-ts-types');
  const h = b.pkg('io-ts-http');
  const optStr = t.union([t.string, t.undefined]);
  const E = b.require('fp-ts/Either');
  const L = [
    { name: 'string', codec: t.string, wire: true },
    { name: 'NumberFromString', codec: T.NumberFromString, wire: true },
    { name: 'optional(string)', codec: h.optional(t.string), wire: true },
    { name: 'optional(NumberFromString)', codec: h.optional(T.NumberFromString), wire: true },
    { name: 'literal("x")', codec: t.literal('x'), wire: true },
    { name: 'BooleanFromString', codec: T.BooleanFromString, wire: true },
    { name: 'withFallback(NumberFromString,7)', codec: T.withFallback(T.NumberFromString, 7), wire: true },
    { name: 'array(string)', codec: t.array(t.string), wire: true, noParam: true },
    { name: 'optional(array(NumberFromString))', codec: h.optional(t.array(T.NumberFromString)), wire: true, noParam: true },
    { name: 'number', codec: t.number },
    { name: 'boolean', codec: t.boolean },
    { name: 'null', codec: t.null },
    { name: 'nullable(string)', codec: t.union([t.string, t.null]) },
    { name: 'optionalized{p:NumberFromString,q?:string}', codec: h.optionalized({ p: T.NumberFromString, q: optStr }) },
    { name: 'unknown', codec: t.unknown },
    { name: 'DateFromISOString', codec: T.DateFromISOString, wire: true },
    { name: 'undefined', codec: t.undefined },
  ];
  return { t, T, h, E, L };
};
