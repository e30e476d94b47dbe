import { LIB, quiet } from "./_util.js";
import { cdkRecorder } from "./_cdk.js";
export const property = {
  id: "C21",
  title: "Readers reach reader end points, writers writers, and values survive sharing",
  statement: "Wherever the addresses of the database and its proxy are stored, exported or given a name in the local network, reading names lead to the reading end point and writing names to the writing one; an imported cluster is identified by the part of its writing address before the cluster mark, or the fallback, and anything else is refused, as is a stack with both or neither kind of cluster. What one stack exports another imports under the same name and environment. A created database is kept, protected from deletion, encrypted unless told otherwise, and reachable only through the given network and security group.",
  quantifier: { over: ["inputs"], text: "addresses of up to 3 symbolic characters around the mark, any environment names of 1..2 characters, all combinations of given and missing configuration, 0..2 readers" },
  why_tests_cant: "The tests look at single fields of one configuration; a swapped reader and writer in any of the places is not seen by them.",
  anchors: {
    files: ["lib/digitraffic-common/src/aws/infra/stacks/db-stack.ts", "lib/digitraffic-common/src/aws/infra/stacks/db-proxy-stack.ts", "lib/digitraffic-common/src/aws/infra/stacks/db-dns-stack.ts", "lib/digitraffic-common/src/aws/infra/stacks/network-stack.ts", "lib/digitraffic-common/src/aws/infra/import-util.ts", "lib/digitraffic-common/src/aws/infra/stack/parameters.ts"],
    mechanism: [{ name: "DbStack, parseClusterIdentifier", where: "lib/digitraffic-common/src/aws/infra/stacks/db-stack.ts" }, { name: "DbProxyStack", where: "lib/digitraffic-common/src/aws/infra/stacks/db-proxy-stack.ts" }, { name: "DbDnsStack", where: "lib/digitraffic-common/src/aws/infra/stacks/db-dns-stack.ts" }, { name: "importVpc, exportValue", where: "lib/digitraffic-common/src/aws/infra/import-util.ts" }],
    observe_at: "what is given to the infrastructure library",
  },
  assumptions: ["the infrastructure library does what its properties say", "the exported reading address of the proxy is that of the proxy itself, as the code says there may be no other"],
};
const I = LIB + "aws/infra/";
const app = (cdk) => cdk.make("aws-cdk-lib", "App");
const isc = (S) => ({ env: { account: "1", region: "eu-west-1" }, environmentName: S.choose("environment", ["test", "prod"]) });
const params = (cdk) => Object.fromEntries(cdk.of("StringParameter").map((p) => [p.$props.parameterName, p.$props.stringValue]));
const outputs = (cdk) => Object.fromEntries(cdk.of("CfnOutput").map((p) => [p.$props.exportName, p.$props.value]));
const defs = () => ({
  props: {
    DatabaseCluster: { clusterIdentifier: () => "the-identifier", clusterEndpoint: () => ({ hostname: "the-writer" }), clusterReadEndpoint: () => ({ hostname: "the-reader" }) },
    DatabaseClusterFromSnapshot: { clusterIdentifier: () => "the-identifier", clusterEndpoint: () => ({ hostname: "the-writer" }), clusterReadEndpoint: () => ({ hostname: "the-reader" }) },
    DatabaseProxy: { endpoint: () => "the-proxy", dbProxyName: (self) => self.$props?.dbProxyName },
    CfnDBProxyEndpoint: { attrEndpoint: () => "the-proxy-reader" },
    Vpc: { vpcId: () => "the-vpc", privateSubnets: () => [{ subnetId: "priv-a" }, { subnetId: "priv-b" }], publicSubnets: () => [{ subnetId: "pub-a" }, { subnetId: "pub-b" }] },
    NetworkStack: {},
  },
});
export const harnesses = {
  identifier: {
    bounds: "addresses of 0..2 characters before and after a mark, with another mark or none, any fallback of 0..2 characters or none",
    reach: ["identified", "fallback", "refused"],
    async run(S) {
      quiet(S);
      cdkRecorder(S, defs());
      const { parseClusterIdentifier: f } = S.load(I + "stacks/db-stack.js");
      const before = S.str("before", [0, 2], "a.-"), after = S.str("after", [0, 2], "a.c");
      const mark = S.choose("mark", [".cluster", ".cluster-x.cluster", "", ".clust", "cluster"]);
      const address = before + mark + after;
      const there = S.choose("there", [true, false]);
      const fallback = S.choose("fallback", [true, false]) ? S.str("other", [0, 2], "a-") : undefined;
      const r = S.sync(() => (fallback === undefined ? f(there ? { clusterWriteEndpoint: address, clusterReadEndpoint: "r" } : undefined) : f(there ? { clusterWriteEndpoint: address, clusterReadEndpoint: "r" } : undefined, fallback)));
      // with these characters the mark is the given one, or begins with the dot before it
      let head = mark.startsWith(".cluster") ? before : undefined;
      if (mark === "cluster" && S.decide(before.endsWith("."))) head = before.slice(0, -1);
      const marked = there && head !== undefined && S.decide(head.length > 0);
      if (marked) { S.assert(!r.error && S.eq(r.value, head), "the part before the mark identifies the cluster"); S.reach("identified"); }
      else if (fallback !== undefined && S.decide(fallback.length > 0)) { S.assert(!r.error && S.eq(r.value, fallback), "otherwise the fallback does"); S.reach("fallback"); }
      else { S.assert(r.error instanceof Error, "otherwise it is refused"); S.reach("refused"); }
    },
  },
  cluster: {
    bounds: "created, imported, both and neither; with and without snapshot, network, encryption setting and memory; 0..2 readers, 0..2 parameter groups",
    reach: ["created", "imported", "refused", "snapshot", "key"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S, defs());
      const { DbStack } = S.load(I + "stacks/db-stack.js");
      const c = isc(S), env = c.environmentName;
      const kind = S.choose("kind", ["created", "imported", "both", "neither"]);
      const created = kind === "created";
      const groups = created || kind === "imported" ? S.choose("groups", [0, 1, 2]) : 1;
      const n = created ? S.choose("readers", [0, 1, 2]) : 0;
      const snapshot = created && S.choose("snapshot", [true, false]), vpc = created && S.choose("vpc", [true, false]) ? { own: "vpc" } : undefined;
      const encrypted = S.choose("encrypted", [undefined, true, false]), mem = S.choose("mem", [true, false]) ? S.choose("workmem", [1, 0, 1048576]) : undefined;
      const cluster = { securityGroupId: "sg-1", snapshotIdentifier: snapshot ? "snap" : undefined, dbVersion: { v: 1 }, writer: { instanceType: { t: "w" } }, readers: Array.from({ length: n }, (_, i) => ({ instanceType: { t: "r" + i }, isFromLegacyInstanceProps: i === 0 })) };
      const imported = { clusterReadEndpoint: "ro.example", clusterWriteEndpoint: "ident.cluster-x.example" };
      const conf = { customParameterGroups: Array.from({ length: groups }, (_, i) => ({ auroraPostgresMajorVersion: String(15 + i) })), secretArn: "arn:secret" };
      if (kind === "created" || kind === "both") conf.cluster = cluster;
      if (kind === "imported" || kind === "both") conf.clusterImport = imported;
      if (encrypted !== undefined) conf.storageEncrypted = encrypted;
      if (mem !== undefined) conf.workmem = mem;
      if (vpc) conf.vpc = vpc;
      const r = S.sync(() => new DbStack(app(cdk), "Db", c, conf));
      if (kind === "both" || kind === "neither" || (created && !groups)) { S.reach("refused"); S.assert(r.error instanceof Error && cdk.of("DatabaseCluster").length === 0, "exactly one kind of cluster is needed"); return; }
      S.assert(!r.error, "the stack is created");
      const stack = r.value;
      S.assert(stack.$args[2].env === c.env, "the stack is in its environment");
      const pgs = cdk.of("ParameterGroup");
      S.assert(pgs.length === groups, "there is a parameter group for each version");
      pgs.forEach((g, i) => S.assert(g.$props.engine.$args[0].version === conf.customParameterGroups[i] && g.$props.parameters.work_mem === String(mem ?? 524288), "with its version and memory"));
      S.assert(new Set(pgs.map((g) => g.$args[1])).size === groups, "and its own name");
      for (const m of ["bindToCluster", "bindToInstance"]) S.assert(pgs.every((g) => g.$calls.some((x) => x[0] === m)), "for the cluster and its instances");
      const p = params(cdk), o = outputs(cdk);
      const ids = cdk.of("StringParameter").map((x) => x.$args[1]);
      S.assert(new Set(ids).size === 3 && cdk.of("StringParameter").every((x) => x.$args[0] === stack), "three parameters are stored");
      if (!created) {
        S.reach("imported");
        S.assert(S.eq(p, { "/digitraffic/db/reader-endpoint": "ro.example", "/digitraffic/db/writer-endpoint": "ident.cluster-x.example", "/digitraffic/db/identifier": "ident" }), "readers and writers find their addresses");
        S.assert(stack.clusterIdentifier === "ident" && Object.keys(o).length === 0 && cdk.of("DatabaseCluster").length === 0, "nothing else is created");
        return;
      }
      S.reach(snapshot ? "snapshot" : "created");
      S.assert(S.eq(p, { "/digitraffic/db/reader-endpoint": "the-reader", "/digitraffic/db/writer-endpoint": "the-writer", "/digitraffic/db/identifier": "the-identifier" }), "readers and writers find their addresses");
      S.assert(S.eq(o, { [`digitraffic-${env}-db-cluster`]: "the-identifier", [`digitraffic-${env}-db-cluster-writer-endpoint`]: "the-writer", [`digitraffic-${env}-db-cluster-reader-endpoint`]: "the-reader" }), "and other stacks too");
      S.assert(stack.clusterIdentifier === "the-identifier", "the cluster is known");
      const cs = [...cdk.of("DatabaseCluster"), ...cdk.of("DatabaseClusterFromSnapshot")];
      S.assert(cs.length === 1 && cs[0].$type === (snapshot ? "DatabaseClusterFromSnapshot" : "DatabaseCluster"), "one cluster is created, from the snapshot if given");
      const x = cs[0].$props;
      S.assert(x.snapshotIdentifier === (snapshot ? "snap" : undefined), "from that snapshot");
      S.assert(x.deletionProtection === true && x.removalPolicy === cdk.module("aws-cdk-lib").RemovalPolicy.RETAIN && x.backup.retention.toDays() >= 35, "the database is protected and kept");
      S.assert(x.storageEncrypted === (encrypted ?? true), "it is encrypted unless told otherwise");
      const keys = cdk.of("Key");
      if (encrypted) { S.reach("key"); S.assert(keys.length === 1 && x.storageEncryptionKey === keys[0] && keys[0].$props.enableKeyRotation === true && keys[0].$props.removalPolicy === cdk.module("aws-cdk-lib").RemovalPolicy.RETAIN, "with its own kept key"); }
      else S.assert(keys.length === 0 && x.storageEncryptionKey === undefined, "without an own key");
      const sg = cdk.of("SecurityGroup");
      S.assert(sg.length === 1 && x.securityGroups.length === 1 && x.securityGroups[0] === sg[0] && sg[0].$args[2] === "sg-1", "it is reachable through the security group");
      if (vpc) S.assert(x.vpc === vpc && cdk.of("Vpc").length === 0, "in the given network"); else S.assert(x.vpc.$type === "Vpc" && x.vpc.$args[2].vpcId === `\${Import[digitraffic-${env}-VPCID]}`, "in the network of the environment");
      S.assert(x.vpcSubnets.subnetType === "Private" || x.vpcSubnets.subnetType === cdk.module("aws-cdk-lib/aws-ec2").SubnetType.PRIVATE_WITH_EGRESS, "in its private part");
      S.assert(x.port === 5432 && x.parameterGroup === pgs[0] && x.engine.$args[0].version === cluster.dbVersion, "it has its port, version and parameters");
      S.assert(x.writer.$args[1].instanceType === cluster.writer.instanceType && x.writer.$args[1].parameterGroup === pgs[0] && x.writer.$args[1].allowMajorVersionUpgrade === false, "there is one writer");
      S.assert(x.readers.length === n && x.readers.every((q, i) => q.$args[1].instanceType === cluster.readers[i].instanceType && q.$args[1].isFromLegacyInstanceProps === cluster.readers[i].isFromLegacyInstanceProps && q.$args[1].parameterGroup === pgs[0]), "and the given readers");
      S.assert(new Set([x.writer, ...x.readers].map((q) => q.$args[0])).size === n + 1, "with different names");
      const cred = cdk.called("secretValueFromJson").map((q) => q.args[0]);
      S.assert(S.eq(cred, ["db.superuser", "db.superuser.password"]) && cdk.of("Secret").length === 1 && cdk.of("Secret")[0].$args[2] === "arn:secret", "the owner comes from the secret");
    },
  },
  proxy: {
    bounds: "all combinations of a given name and an empty identifier; both environments",
    reach: ["proxy", "refused"],
    async run(S) {
      quiet(S);
      const cdk = cdkRecorder(S, defs());
      const { DbProxyStack } = S.load(I + "stacks/db-proxy-stack.js");
      const c = isc(S), env = c.environmentName;
      const name = S.choose("name", [undefined, "Own"]);
      const id = S.str("identifier", [0, 2], "a-z");
      const r = S.sync(() => new DbProxyStack(app(cdk), "Proxy", c, { secretArn: "arn:secret", name, securityGroupId: "sg-1", clusterIdentifier: id }));
      if (S.decide(S.eq(id, ""))) { S.reach("refused"); S.assert(r.error instanceof Error, "a proxy needs a cluster"); return; }
      S.reach("proxy");
      S.assert(!r.error, "the stack is created");
      S.assert(S.eq(params(cdk), { "/digitraffic/db/proxy-reader-endpoint": "the-proxy-reader", "/digitraffic/db/proxy-writer-endpoint": "the-proxy" }), "readers and writers find their addresses");
      S.assert(S.eq(outputs(cdk), { [`digitraffic-${env}-db-reader-endpoint`]: "the-proxy", [`digitraffic-${env}-db-writer-endpoint`]: "the-proxy" }), "and other stacks too");
      const p = cdk.of("DatabaseProxy");
      S.assert(p.length === 1 && p[0].$props.dbProxyName === (name ?? "AuroraProxy") && p[0].$args[1] === `${env}-proxy`, "the proxy has its name");
      const cl = cdk.of("DatabaseCluster");
      S.assert(cl.length === 1 && S.eq(cl[0].$args[2].clusterIdentifier, id) && cl[0].$args[2].port === 5432 && p[0].$props.proxyTarget.$args[0] === cl[0], "it leads to the cluster");
      S.assert(p[0].$props.securityGroups.length === 1 && p[0].$props.securityGroups[0].$args[2] === "sg-1", "it is reachable through the security group");
      S.assert(p[0].$props.secrets.length === 1 && p[0].$props.secrets[0].$args[2].secretCompleteArn === "arn:secret", "it knows the secret");
      S.assert(p[0].$props.vpc.$args[2].vpcId === `\${Import[digitraffic-${env}-VPCID]}`, "it is in the network of the environment");
      const e = cdk.of("CfnDBProxyEndpoint");
      S.assert(e.length === 1 && e[0].$props.targetRole === "READ_ONLY" && e[0].$props.dbProxyName === p[0].$props.dbProxyName && S.eq(e[0].$props.vpcSubnetIds, ["priv-a", "priv-b"]) && S.eq(e[0].$props.vpcSecurityGroupIds, ["sg-1"]), "one end point of it is for reading");
    },
  },
  names: {
    bounds: "both environments; a network with 2 of each subnets or with any of them missing, with and without a gateway",
    reach: ["dns", "network", "refused", "gateway", "shared"],
    async run(S) {
      quiet(S);
      const what = S.choose("what", ["dns", "network", "shared"]);
      const d = defs();
      let pub = 2, priv = 2;
      if (what === "network") { pub = S.choose("public", [0, 1, 2]); priv = S.choose("private", [0, 1, 2]); d.props.Vpc.publicSubnets = () => [{ subnetId: "pub-a" }, { subnetId: "pub-b" }].slice(0, pub); d.props.Vpc.privateSubnets = () => [{ subnetId: "priv-a" }, { subnetId: "priv-b" }].slice(0, priv); }
      const selected = [{ node: { id: "A" }, routeTable: { routeTableId: "rt-a" } }, { node: { id: "B" }, routeTable: { routeTableId: "rt-b" } }];
      d.methods = { Vpc: { selectSubnets: () => ({ subnets: selected }) } };
      d.props.Stack = { availabilityZones: () => ["z3", "z1", "z2"] };
      const cdk = cdkRecorder(S, d);
      const c = isc(S), env = c.environmentName;
      if (what === "dns") {
        S.reach("dns");
        const { DbDnsStack } = S.load(I + "stacks/db-dns-stack.js");
        new DbDnsStack(app(cdk), "Dns", c);
        const z = cdk.of("PrivateHostedZone");
        S.assert(z.length === 1 && z[0].$props.zoneName === `${env}.local` && z[0].$props.vpc.$args[2].vpcId === `\${Import[digitraffic-${env}-VPCID]}`, "the zone is for the network of the environment");
        S.assert(z[0].$calls.some((x) => x[0] === "applyRemovalPolicy" && x[1][0] === cdk.module("aws-cdk-lib").RemovalPolicy.RETAIN), "it is kept");
        const rs = cdk.of("RecordSet");
        S.assert(rs.every((r) => r.$props.recordType === cdk.module("aws-cdk-lib/aws-route53").RecordType.CNAME && r.$props.zone === z[0] && r.$props.ttl.toSeconds() === 30), "names are aliases and are looked up again soon");
        const map = Object.fromEntries(rs.map((r) => [r.$props.recordName, r.$props.target.$args[0]]));
        const par = (n) => `\${Parameter[/digitraffic/db/${n}]}`;
        S.assert(rs.length === 4 && S.eq(map, { [`db-ro.${env}.local`]: par("reader-endpoint"), [`db.${env}.local`]: par("writer-endpoint"), [`proxy-ro.${env}.local`]: par("proxy-reader-endpoint"), [`proxy.${env}.local`]: par("proxy-writer-endpoint") }), "every name leads to its end point");
      } else if (what === "network") {
        const { NetworkStack } = S.load(I + "stacks/network-stack.js");
        const gw = S.choose("gateway", [undefined, "tgw-1"]);
        const r = S.sync(() => new NetworkStack(app(cdk), "Net", c, { vpcName: "name", cidr: "10.0.0.0/16", transitGatewayId: gw }));
        if (pub < 2 || priv < 2) { S.reach("refused"); S.assert(r.error instanceof Error, "two subnets of each kind are needed"); return; }
        S.reach("network");
        S.assert(!r.error, "the network is created");
        const o = outputs(cdk);
        S.assert(S.eq(o, { [`digitraffic-${env}-VPCID`]: "the-vpc", [`digitraffic-${env}-digitrafficpublicASubnet`]: "pub-a", [`digitraffic-${env}-digitrafficpublicBSubnet`]: "pub-b", [`digitraffic-${env}-digitrafficprivateASubnet`]: "priv-a", [`digitraffic-${env}-digitrafficprivateBSubnet`]: "priv-b" }), "the network is exported");
        const v = cdk.of("Vpc")[0].$props;
        S.assert(v.vpcName === "name" && S.eq(v.availabilityZones, ["z1", "z2"]) && v.ipAddresses.$args[0] === "10.0.0.0/16", "it has its name, addresses and two zones");
        S.assert(v.natGateways === (gw ? 0 : 2), "traffic leaves through the gateway or own ones");
        const routes = cdk.of("CfnRoute");
        S.assert(routes.length === (gw ? 2 : 0) && routes.every((x, i) => x.$props.routeTableId === ["rt-a", "rt-b"][i] && x.$props.destinationCidrBlock === "0.0.0.0/0" && x.$props.transitGatewayId === gw), "every subnet has its route");
        S.assert(new Set(routes.map((x) => x.$args[1])).size === routes.length, "with its own name");
        if (gw) S.reach("gateway");
      } else {
        S.reach("shared");
        const U = S.load(I + "import-util.js");
        const e = S.str("env", [1, 2], "a-z"), n = S.str("name", [1, 2], "a-z"), value = "v";
        const seen = [];
        cdk.defs.statics.Fn = { importValue: (x) => { seen.push(x); return "imported"; } };
        const stack = cdk.make("aws-cdk-lib", "Stack", undefined, "st");
        U.exportValue(stack, e, n, value);
        const out = cdk.of("CfnOutput");
        S.assert(U.importValue(e, n) === "imported" && seen.length === 1 && out.length === 1 && out[0].$args[0] === stack && out[0].$props.value === value, "the value is exported and imported");
        S.assert(S.and(S.eq(seen[0], out[0].$props.exportName), S.eq(seen[0], U.outputName(e, n))), "under the same name");
        const e2 = S.str("env2", [1, 2], "a-z"), n2 = S.str("name2", [1, 2], "a-z");
        S.assert(S.implies(S.not(S.and(S.eq(e, e2), S.eq(n, n2))), S.not(S.eq(U.outputName(e, n), U.outputName(e2, n2)))), "different values have different names");
        seen.length = 0;
        const vpc = U.importVpc(stack, "test");
        S.assert(S.eq(seen, ["digitraffic-test-VPCID", "digitraffic-test-digitrafficprivateASubnet", "digitraffic-test-digitrafficprivateBSubnet"]) && vpc.$args[2].availabilityZones.length === 2, "the exported network is imported");
      }
    },
  },
};
